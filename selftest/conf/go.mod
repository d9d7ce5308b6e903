module verif.local/conf

go 1.12
