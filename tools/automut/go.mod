module verif.local/automut

go 1.27
