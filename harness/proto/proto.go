// Package proto is what the driver and the worker say to each other.
package proto

import "encoding/json"

// Str is a string of any bytes; JSON would spoil those that are not UTF-8.
type Str string

func (s Str) MarshalJSON() ([]byte, error) { return json.Marshal([]byte(s)) }
func (s *Str) UnmarshalJSON(b []byte) error {
	var x []byte
	err := json.Unmarshal(b, &x)
	*s = Str(x)
	return err
}

// A Job is a list of steps that one worker takes in order, in directory Dir.
type Job struct {
	ID    string
	Dir   string
	Steps []Step
	Fds   bool // tell which files are open before and after every operation
}

type Step struct {
	Op      string
	H       string // handle of an Lha value
	Archive string
	Name    Str
	Names   []Str
	Data    []byte
	Method  int
	Level   int
	Mode    uint32
	Mtime   int64
	Index   int
	Opts    map[string]any // options of the Lha value, or of the package
	Stdin   []byte
	WantOut bool // return what was printed
	Hash    bool // return the digest of contents, not the contents
}

type Header struct {
	Level, Ext     int
	Method         Str
	Packed, Size   int
	Name, Real     []byte
	Crc            int
	HasCrc         bool
	Mtime          int64
	Mode, Uid, Gid int
	User, Group    []byte
	Attr           int
	HeaderSize     int
}

type Node struct {
	Path  Str
	Type  string // "f", "d", "l", "o"
	Mode  uint32
	Mtime int64
	Uid   int
	Gid   int
	Size  int64
	Data  []byte `json:",omitempty"` // content, or target of a link
	Hash  string `json:",omitempty"`
	Inode uint64
}

type Res struct {
	Err     string // "" for success
	Panic   string
	Data    []byte
	Out     []byte
	Headers []Header
	Tree    []Node
	Names   []Str
	Ms      float64
	Before  []Str // "descriptor path" of the open files
	After   []Str
}

type Reply struct {
	ID  string
	Res []Res
}
