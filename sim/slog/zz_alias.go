// Code generated by aliasgen. DO NOT EDIT.

package log

import real_ "log"

const (
	LUTC          = real_.LUTC
	Ldate         = real_.Ldate
	Llongfile     = real_.Llongfile
	Lmicroseconds = real_.Lmicroseconds
	Lmsgprefix    = real_.Lmsgprefix
	Lshortfile    = real_.Lshortfile
	LstdFlags     = real_.LstdFlags
	Ltime         = real_.Ltime
)

var (
	Fatal     = real_.Fatal
	Fatalf    = real_.Fatalf
	Fatalln   = real_.Fatalln
	Flags     = real_.Flags
	Panic     = real_.Panic
	Panicf    = real_.Panicf
	Panicln   = real_.Panicln
	Prefix    = real_.Prefix
	SetFlags  = real_.SetFlags
	SetOutput = real_.SetOutput
	SetPrefix = real_.SetPrefix
	Writer    = real_.Writer
)
