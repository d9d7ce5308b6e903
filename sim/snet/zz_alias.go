// Code generated by aliasgen. DO NOT EDIT.

package net

import real_ "net"

const (
	FlagBroadcast    = real_.FlagBroadcast
	FlagLoopback     = real_.FlagLoopback
	FlagMulticast    = real_.FlagMulticast
	FlagPointToPoint = real_.FlagPointToPoint
	FlagRunning      = real_.FlagRunning
	FlagUp           = real_.FlagUp
	IPv4len          = real_.IPv4len
	IPv6len          = real_.IPv6len
)

var (
	CIDRMask                   = real_.CIDRMask
	DialIP                     = real_.DialIP
	DialUDP                    = real_.DialUDP
	ErrClosed                  = real_.ErrClosed
	ErrWriteToConnected        = real_.ErrWriteToConnected
	FileConn                   = real_.FileConn
	FileListener               = real_.FileListener
	FilePacketConn             = real_.FilePacketConn
	IPv4                       = real_.IPv4
	IPv4Mask                   = real_.IPv4Mask
	IPv4allrouter              = real_.IPv4allrouter
	IPv4allsys                 = real_.IPv4allsys
	IPv4bcast                  = real_.IPv4bcast
	IPv4zero                   = real_.IPv4zero
	IPv6interfacelocalallnodes = real_.IPv6interfacelocalallnodes
	IPv6linklocalallnodes      = real_.IPv6linklocalallnodes
	IPv6linklocalallrouters    = real_.IPv6linklocalallrouters
	IPv6loopback               = real_.IPv6loopback
	IPv6unspecified            = real_.IPv6unspecified
	IPv6zero                   = real_.IPv6zero
	InterfaceAddrs             = real_.InterfaceAddrs
	InterfaceByIndex           = real_.InterfaceByIndex
	InterfaceByName            = real_.InterfaceByName
	Interfaces                 = real_.Interfaces
	JoinHostPort               = real_.JoinHostPort
	ListenIP                   = real_.ListenIP
	ListenMulticastUDP         = real_.ListenMulticastUDP
	ListenUDP                  = real_.ListenUDP
	LookupAddr                 = real_.LookupAddr
	LookupCNAME                = real_.LookupCNAME
	LookupMX                   = real_.LookupMX
	LookupNS                   = real_.LookupNS
	LookupSRV                  = real_.LookupSRV
	LookupTXT                  = real_.LookupTXT
	ParseCIDR                  = real_.ParseCIDR
	ParseIP                    = real_.ParseIP
	ParseMAC                   = real_.ParseMAC
	Pipe                       = real_.Pipe
	ResolveIPAddr              = real_.ResolveIPAddr
	ResolveUDPAddr             = real_.ResolveUDPAddr
	ResolveUnixAddr            = real_.ResolveUnixAddr
	SplitHostPort              = real_.SplitHostPort
	TCPAddrFromAddrPort        = real_.TCPAddrFromAddrPort
	UDPAddrFromAddrPort        = real_.UDPAddrFromAddrPort
)

type (
	Addr                = real_.Addr
	AddrError           = real_.AddrError
	Conn                = real_.Conn
	DNSConfigError      = real_.DNSConfigError
	DNSError            = real_.DNSError
	Error               = real_.Error
	Flags               = real_.Flags
	HardwareAddr        = real_.HardwareAddr
	IP                  = real_.IP
	IPAddr              = real_.IPAddr
	IPConn              = real_.IPConn
	IPMask              = real_.IPMask
	IPNet               = real_.IPNet
	Interface           = real_.Interface
	InvalidAddrError    = real_.InvalidAddrError
	KeepAliveConfig     = real_.KeepAliveConfig
	Listener            = real_.Listener
	MX                  = real_.MX
	NS                  = real_.NS
	OpError             = real_.OpError
	PacketConn          = real_.PacketConn
	ParseError          = real_.ParseError
	SRV                 = real_.SRV
	TCPAddr             = real_.TCPAddr
	UDPAddr             = real_.UDPAddr
	UDPConn             = real_.UDPConn
	UnixAddr            = real_.UnixAddr
	UnknownNetworkError = real_.UnknownNetworkError
)
