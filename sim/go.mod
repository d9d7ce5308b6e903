module verif.local/sim

go 1.27

require github.com/nathanaelle/syslog5424/v2 v2.0.0

replace github.com/nathanaelle/syslog5424/v2 => /repo
