// Code generated by aliasgen. DO NOT EDIT.

package context

import real_ "context"

var (
	Background       = real_.Background
	Canceled         = real_.Canceled
	DeadlineExceeded = real_.DeadlineExceeded
	TODO             = real_.TODO
	WithoutCancel    = real_.WithoutCancel
)

type (
	CancelCauseFunc = real_.CancelCauseFunc
	CancelFunc      = real_.CancelFunc
	Context         = real_.Context
)
