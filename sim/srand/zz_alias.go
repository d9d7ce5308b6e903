// Code generated by aliasgen. DO NOT EDIT.

package rand

import real_ "math/rand"

var (
	New       = real_.New
	NewSource = real_.NewSource
	NewZipf   = real_.NewZipf
)

type (
	Rand     = real_.Rand
	Source   = real_.Source
	Source64 = real_.Source64
	Zipf     = real_.Zipf
)
