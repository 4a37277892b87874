package mos

import "os"

// The rest of package os, as it is.

type (
	LinkError    = os.LinkError
	ProcAttr     = os.ProcAttr
	ProcessState = os.ProcessState
	Signal       = os.Signal
	SyscallError = os.SyscallError
)

const (
	DevNull           = os.DevNull
	ModeAppend        = os.ModeAppend
	ModeCharDevice    = os.ModeCharDevice
	ModeDevice        = os.ModeDevice
	ModeDir           = os.ModeDir
	ModeExclusive     = os.ModeExclusive
	ModeIrregular     = os.ModeIrregular
	ModeNamedPipe     = os.ModeNamedPipe
	ModePerm          = os.ModePerm
	ModeSetgid        = os.ModeSetgid
	ModeSetuid        = os.ModeSetuid
	ModeSocket        = os.ModeSocket
	ModeSticky        = os.ModeSticky
	ModeSymlink       = os.ModeSymlink
	ModeTemporary     = os.ModeTemporary
	ModeType          = os.ModeType
	O_APPEND          = os.O_APPEND
	O_CREATE          = os.O_CREATE
	O_EXCL            = os.O_EXCL
	O_RDONLY          = os.O_RDONLY
	O_RDWR            = os.O_RDWR
	O_SYNC            = os.O_SYNC
	O_TRUNC           = os.O_TRUNC
	O_WRONLY          = os.O_WRONLY
	PathListSeparator = os.PathListSeparator
	PathSeparator     = os.PathSeparator
	SEEK_CUR          = os.SEEK_CUR
	SEEK_END          = os.SEEK_END
	SEEK_SET          = os.SEEK_SET
)

var (
	Environ             = os.Environ
	ErrClosed           = os.ErrClosed
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrExist            = os.ErrExist
	ErrInvalid          = os.ErrInvalid
	ErrNoDeadline       = os.ErrNoDeadline
	ErrNoHandle         = os.ErrNoHandle
	ErrNotExist         = os.ErrNotExist
	ErrPermission       = os.ErrPermission
	ErrProcessDone      = os.ErrProcessDone
	Executable          = os.Executable
	Expand              = os.Expand
	ExpandEnv           = os.ExpandEnv
	Getegid             = os.Getegid
	Geteuid             = os.Geteuid
	Getgid              = os.Getgid
	Getgroups           = os.Getgroups
	Getpagesize         = os.Getpagesize
	Getppid             = os.Getppid
	Getuid              = os.Getuid
	Hostname            = os.Hostname
	Interrupt           = os.Interrupt
	IsExist             = os.IsExist
	IsNotExist          = os.IsNotExist
	IsPathSeparator     = os.IsPathSeparator
	IsPermission        = os.IsPermission
	IsTimeout           = os.IsTimeout
	NewSyscallError     = os.NewSyscallError
	UserCacheDir        = os.UserCacheDir
	UserConfigDir       = os.UserConfigDir
	UserHomeDir         = os.UserHomeDir
)
