package main

// Op is one call to make; the text fields are bytes (base64 in JSON), so that
// any byte string can be replayed.
type Op struct {
	Op    string    `json:"op"`
	G     int       `json:"g"`
	C     *Cfg      `json:"c,omitempty"`
	V     bool      `json:"v,omitempty"`
	T     []byte    `json:"t,omitempty"`
	F     int       `json:"f,omitempty"` // frequency in quarters
	P     []byte    `json:"p,omitempty"`
	NoPos bool      `json:"nopos,omitempty"`
	How   string    `json:"how,omitempty"`
	Items []Item    `json:"items,omitempty"`
	Files []File    `json:"files,omitempty"`
	L     [][]byte  `json:"l,omitempty"`
	LP    []TextPos `json:"lp,omitempty"`
	PS    [][]byte  `json:"ps,omitempty"`
	M     int       `json:"m,omitempty"` // model
	Fn    string    `json:"fn,omitempty"`
	Lang  string    `json:"lang,omitempty"`
	Ck    string    `json:"ck,omitempty"`
	Sk    string    `json:"sk,omitempty"`
	Rx    []string  `json:"rx,omitempty"`
	H     bool      `json:"h,omitempty"`
	By    bool      `json:"by,omitempty"`
	K     int       `json:"k,omitempty"`
	G2    int       `json:"g2,omitempty"`
	G3    int       `json:"g3,omitempty"`
	Sep   []byte    `json:"sep,omitempty"`
	Def   bool      `json:"def,omitempty"`
	N     int       `json:"n,omitempty"`
	Gs    []int     `json:"gs,omitempty"`
	Th    [][]Op    `json:"th,omitempty"` // goroutines
	Ops   []Op      `json:"ops,omitempty"`
	Us    int       `json:"us,omitempty"` // microseconds to wait before
}

// Cfg are the settings of a segmenter.
type Cfg struct {
	Al  bool   `json:"al,omitempty"`
	Nu  bool   `json:"nu,omitempty"`
	An  bool   `json:"an,omitempty"`
	Lnf bool   `json:"lnf,omitempty"`
	Mtf int    `json:"mtf,omitempty"` // MinTokenFreq in quarters
	Tf  string `json:"tf,omitempty"`
	Sep string `json:"sep,omitempty"`
	Ns  bool   `json:"ns,omitempty"`
	Skp bool   `json:"skp,omitempty"`
	Nlh bool   `json:"nlh,omitempty"`
	Log bool   `json:"log,omitempty"` // it logs, and more
}

// Item is one map of LoadDictMap.
type Item struct {
	KV [][2]string `json:"kv"`
}

// File is one file of a load; Miss: it does not exist; Dir: it is a directory.
type File struct {
	Txt  []byte `json:"txt"`
	Miss bool   `json:"miss,omitempty"`
	Dir  bool   `json:"dir,omitempty"`
}

// TextPos is a text with its part of speech.
type TextPos struct {
	T []byte `json:"t"`
	P []byte `json:"p"`
}

// Session is a sequence of calls on fresh segmenters.
type Session struct {
	Kind  string `json:"kind"`
	Ops   []Op   `json:"ops"`
	ev    []M
	calls []M
}

// M is an event.
type M map[string]interface{}

func b(s string) []byte { return []byte(s) }
