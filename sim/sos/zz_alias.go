// Code generated by aliasgen. DO NOT EDIT.

package os

import real_ "os"

const (
	DevNull           = real_.DevNull
	ModeAppend        = real_.ModeAppend
	ModeCharDevice    = real_.ModeCharDevice
	ModeDevice        = real_.ModeDevice
	ModeDir           = real_.ModeDir
	ModeExclusive     = real_.ModeExclusive
	ModeIrregular     = real_.ModeIrregular
	ModeNamedPipe     = real_.ModeNamedPipe
	ModePerm          = real_.ModePerm
	ModeSetgid        = real_.ModeSetgid
	ModeSetuid        = real_.ModeSetuid
	ModeSocket        = real_.ModeSocket
	ModeSticky        = real_.ModeSticky
	ModeSymlink       = real_.ModeSymlink
	ModeTemporary     = real_.ModeTemporary
	ModeType          = real_.ModeType
	O_APPEND          = real_.O_APPEND
	O_CREATE          = real_.O_CREATE
	O_EXCL            = real_.O_EXCL
	O_RDONLY          = real_.O_RDONLY
	O_RDWR            = real_.O_RDWR
	O_SYNC            = real_.O_SYNC
	O_TRUNC           = real_.O_TRUNC
	O_WRONLY          = real_.O_WRONLY
	PathListSeparator = real_.PathListSeparator
	PathSeparator     = real_.PathSeparator
	SEEK_CUR          = real_.SEEK_CUR
	SEEK_END          = real_.SEEK_END
	SEEK_SET          = real_.SEEK_SET
)

var (
	Args                = real_.Args
	Chdir               = real_.Chdir
	Chown               = real_.Chown
	Chtimes             = real_.Chtimes
	Clearenv            = real_.Clearenv
	CopyFS              = real_.CopyFS
	Create              = real_.Create
	CreateTemp          = real_.CreateTemp
	DirFS               = real_.DirFS
	Environ             = real_.Environ
	ErrClosed           = real_.ErrClosed
	ErrDeadlineExceeded = real_.ErrDeadlineExceeded
	ErrExist            = real_.ErrExist
	ErrInvalid          = real_.ErrInvalid
	ErrNoDeadline       = real_.ErrNoDeadline
	ErrNoHandle         = real_.ErrNoHandle
	ErrNotExist         = real_.ErrNotExist
	ErrPermission       = real_.ErrPermission
	ErrProcessDone      = real_.ErrProcessDone
	Executable          = real_.Executable
	Expand              = real_.Expand
	ExpandEnv           = real_.ExpandEnv
	FindProcess         = real_.FindProcess
	Getegid             = real_.Getegid
	Geteuid             = real_.Geteuid
	Getgid              = real_.Getgid
	Getgroups           = real_.Getgroups
	Getpagesize         = real_.Getpagesize
	Getuid              = real_.Getuid
	Getwd               = real_.Getwd
	Interrupt           = real_.Interrupt
	IsExist             = real_.IsExist
	IsNotExist          = real_.IsNotExist
	IsPathSeparator     = real_.IsPathSeparator
	IsPermission        = real_.IsPermission
	IsTimeout           = real_.IsTimeout
	Kill                = real_.Kill
	Lchown              = real_.Lchown
	Link                = real_.Link
	Mkdir               = real_.Mkdir
	MkdirAll            = real_.MkdirAll
	MkdirTemp           = real_.MkdirTemp
	NewFile             = real_.NewFile
	NewSyscallError     = real_.NewSyscallError
	Open                = real_.Open
	OpenFile            = real_.OpenFile
	OpenInRoot          = real_.OpenInRoot
	OpenRoot            = real_.OpenRoot
	Pipe                = real_.Pipe
	ReadDir             = real_.ReadDir
	ReadFile            = real_.ReadFile
	Readlink            = real_.Readlink
	Setenv              = real_.Setenv
	StartProcess        = real_.StartProcess
	Symlink             = real_.Symlink
	TempDir             = real_.TempDir
	Truncate            = real_.Truncate
	Unsetenv            = real_.Unsetenv
	UserCacheDir        = real_.UserCacheDir
	UserConfigDir       = real_.UserConfigDir
	UserHomeDir         = real_.UserHomeDir
	WriteFile           = real_.WriteFile
)

type (
	DirEntry     = real_.DirEntry
	FileInfo     = real_.FileInfo
	FileMode     = real_.FileMode
	LinkError    = real_.LinkError
	PathError    = real_.PathError
	ProcAttr     = real_.ProcAttr
	Process      = real_.Process
	ProcessState = real_.ProcessState
	Root         = real_.Root
	Signal       = real_.Signal
	SyscallError = real_.SyscallError
)
