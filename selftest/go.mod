module verif.local/selftest

go 1.27

require (
	github.com/nathanaelle/syslog5424/v2 v2.0.0
	verif.local/conf v0.0.0
	verif.local/sim v0.0.0
)

replace (
	github.com/nathanaelle/syslog5424/v2 => /repo
	verif.local/conf => ./conf
	verif.local/sim => ../sim
)
