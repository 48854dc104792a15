package scratch

import (
	"fmt"
	"strings"

	"verifharness/gen/model"
)

// Full is a package with every supported construct, so that no run depends on the luck of the draw.
func Full(no int, engine string, f model.Flags) *Pkg {
	p := &Pkg{Engine: engine, Dir: fmt.Sprintf("full%d", no), Name: fmt.Sprintf("full%d", no)}
	e := "EngGo"
	if engine == "yayamls" {
		e = "EngYa"
	}
	p.Src = strings.NewReplacer("PKG", p.Name, "ENG", e).Replace(fullSrc)
	for i, n := range []string{"Basics", "Composite", "Maps", "Embedding", "Customs", "Ifaces", "List", "Dict", "Arr", "Num", "Raw", "Tree", "Str", "Flt", "Flag", "Foreigns", "Paths", "Clashes", "Ticks", "Locals", "Texts", "Holder"} {
		t := Tgt{Name: n, Flags: f, Output: fmt.Sprintf("t%d_yamly.go", i)}
		if n == "Holder" {
			t.Phase = 1
		}
		p.Targets = append(p.Targets, t)
	}
	return p
}

// Flagged is a small package whose type shows the effect of every flag; the command generates its code.
func Flagged(no int, engine string, f model.Flags) *Pkg {
	name := fmt.Sprintf("cmd%02d", no)
	return &Pkg{Engine: engine, Dir: name, Name: name, Command: true, Src: "package " + name + flaggedSrc,
		Targets: []Tgt{{Name: "Shown", Flags: f, Output: "shown_yamly.go"}}}
}

const flaggedSrc = `

type Emb struct {
	E1 int
	E2 string ` + "`yaml:\"e2\"`" + `
}

type Sub struct {
	X    []int
	Y    *Sub
	Text string ` + "`yaml:\"text,omitempty\"`" + `
}

type Shown struct {
	Emb
	N  int ` + "`yaml:\"n\"`" + `
	L  []string
	M  map[string]*int
	S  Sub
	P  *Sub
	Ss []Sub
	F  float64 ` + "`yaml:\"f,omitempty\"`" + `
	In Sub     ` + "`yaml:\"in\"`" + `
}
`

const fullSrc = `package PKG

import (
	"time"

	"verifharness/gen/custom"
	"verifharness/gen/foreign/decode"
	foreign "verifharness/gen/foreign/v2"
	fv1 "verifharness/gen/foreign/v1"
	xv2 "verifharness/gen/foreign/x/v2"
	apiv4 "verifharness/gen/foreign/v4"
	mypkg "verifharness/gen/foreign/my-pkg"
	lib "verifharness/gen/foreign/lib.v3"
	three "verifharness/gen/foreign/3d"
	typ "verifharness/gen/foreign/type"
	pkey "verifharness/gen/foreign/key"
	pout "verifharness/gen/foreign/out"
	sa "verifharness/gen/foreign/a/same"
	sb "verifharness/gen/foreign/b/same"
	sc "verifharness/gen/foreign/c/same"
	sd "verifharness/gen/foreign/d/same"
	se "verifharness/gen/foreign/e/same1"
	pyaml "verifharness/gen/foreign/yaml"
	pencode "verifharness/gen/foreign/encode"
	pyamly "verifharness/gen/foreign/yamly"
	pstring "verifharness/gen/foreign/string"
	plen "verifharness/gen/foreign/len"
	ptime "verifharness/gen/foreign/time"
)

type MyStr string
type MyInt int16
type MyUint uint32
type MyBool bool
type MyFloat float32
type MyByte uint8
type MyBytes []byte
type MyList []string
type MyMap map[string]int
type MyArr [2]int

type Basics struct {
	S    string
	B    bool
	I    int
	I8   int8
	I16  int16
	I32  int32
	I64  int64
	U    uint
	U8   uint8
	U16  uint16
	U32  uint32
	U64  uint64
	F32  float32
	F64  float64
	R    rune
	T    time.Time
	By   []byte
	ByA  [3]byte
	Ns   MyStr
	Ni   MyInt
	Nu   MyUint
	Nb   MyBool
	Nf   MyFloat
	Ny   MyByte
	Nys  []MyByte
	Nbs  MyBytes
	Nl   MyList
	Nm   MyMap
	Na   MyArr
	OS   string    ` + "`yaml:\"os,omitempty\"`" + `
	OB   bool      ` + "`yaml:\"ob,omitempty\"`" + `
	OI   int8      ` + "`yaml:\"oi,omitempty\"`" + `
	OU   uint64    ` + "`yaml:\"ou,omitempty\"`" + `
	OF   float32   ` + "`yaml:\"of,omitempty\"`" + `
	OT   time.Time ` + "`yaml:\"ot,omitempty\"`" + `
	OBy  []byte    ` + "`yaml:\"oby,omitempty\"`" + `
	OByA [2]byte   ` + "`yaml:\"obya,omitempty\"`" + `
	Skip int       ` + "`yaml:\"-\"`" + `
	Dash string    ` + "`yaml:\"-,\"`" + `
	Sp   string    ` + "`yaml:\"a b: #c\"`" + `
	Nul  string    ` + "`yaml:\"null\"`" + `
	Dig  int       ` + "`yaml:\"12\"`" + `
	Q    string    "yaml:\"q\\\"uo'te\""
	hid  int
}

type Inner struct {
	A int    ` + "`yaml:\"a\"`" + `
	B string ` + "`yaml:\"b,omitempty\"`" + `
}

type Composite struct {
	In     Inner
	InP    *Inner
	SP     *string
	IP     *int
	BP     *bool
	FP     *float64
	TP     *time.Time
	L      []int
	LS     []string
	LL     [][]bool
	LI     []Inner
	LP     []*Inner
	LPI    []*int
	PL     *[]int
	A      [3]int
	AA     [2][2]uint8
	AI     [2]Inner
	AP     [2]*Inner
	PA     *[2]string
	LA     [][2]int
	LB     [][]byte
	LBA    [][2]byte
	LT     []time.Time
	LM     []map[string]int
	Anon   struct {
		X int ` + "`yaml:\"x\"`" + `
		y int
		Z []struct{ W string }
	}
	AnonP  *struct{ V int }
	Empty  struct{}
	EmptyP *struct{}
	OIn    Inner    ` + "`yaml:\"oin,omitempty\"`" + `
	OInP   *Inner   ` + "`yaml:\"oinp,omitempty\"`" + `
	OL     []int    ` + "`yaml:\"ol,omitempty\"`" + `
	OLI    []Inner  ` + "`yaml:\"oli,omitempty\"`" + `
	OA     [2]int   ` + "`yaml:\"oa,omitempty\"`" + `
	OSP    *string  ` + "`yaml:\"osp,omitempty\"`" + `
	OPL    *[]int   ` + "`yaml:\"opl,omitempty\"`" + `
	Self   *Composite
	Selves []Composite
}

type Maps struct {
	S   map[string]string
	I   map[int]int8
	U   map[uint8]uint
	B   map[bool]string
	F   map[float64]float32
	N   map[MyStr]MyInt
	NI  map[MyInt]MyStr
	A   map[[2]int8]string
	K   map[struct {
		X int
		Y string
	}]int
	T   map[time.Time]int
	TX  map[TextP]string
	Y   map[YamP]int
	L   map[foreign.Level]int
	FT  map[custom.TextP]int
	MM  map[string]map[int]string
	ML  map[string][]int
	MI  map[string]Inner
	MP  map[string]*Inner
	MA  map[string][2]int
	MBy map[string][]byte
	MT  map[string]time.Time
	MPI map[string]*int
	MAn map[string]struct{ Q int }
	P   *map[string]int
	O   map[string]int            ` + "`yaml:\"o,omitempty\"`" + `
	OM  map[string]map[string]int ` + "`yaml:\"om,omitempty\"`" + `
	OML []map[string]int          ` + "`yaml:\"oml,omitempty\"`" + `
	Rec map[string]Maps
	RP  map[int]*Maps
}

type Base struct {
	B1 int    ` + "`yaml:\"b1\"`" + `
	B2 string ` + "`yaml:\"b2,omitempty\"`" + `
	B3 *int
}

type lower struct {
	L1 bool
	L2 []string ` + "`yaml:\"l2\"`" + `
}

type Deep struct {
	Base
	D1 string ` + "`yaml:\"d1\"`" + `
}

type PtrE struct {
	P1 int ` + "`yaml:\"p1,omitempty\"`" + `
	P2 map[string]int
}

type Inl1 struct {
	X1 int  ` + "`yaml:\"x1\"`" + `
	X2 *int ` + "`yaml:\"x2,omitempty\"`" + `
}

type Inl2 struct {
	Y1 []int ` + "`yaml:\"y1\"`" + `
	Y2 Inl3  ` + "`yaml:\",inline\"`" + `
}

type Inl3 struct {
	Z1 string
	Z2 string ` + "`yaml:\"z2\"`" + `
}

type Tagged struct {
	G1 int
}

type Ignored struct {
	H1 int
}

type Always struct {
	W1 int
	W2 string ` + "`yaml:\"w2\"`" + `
}

type Embedding struct {
	Deep
	lower
	*PtrE
	Tagged  ` + "`yaml:\"tagged\"`" + `
	Ignored ` + "`yaml:\"-\"`" + `
	Always  ` + "`yaml:\",inline\"`" + `
	Own     int
	In1     Inl1  ` + "`yaml:\",inline\"`" + `
	In2     *Inl2 ` + "`yaml:\",inline\"`" + `
	Shadow  int   ` + "`yaml:\"z2\"`" + `
	ShadowB int   ` + "`yaml:\"b2\"`" + `
	Anon    struct {
		Q1 int ` + "`yaml:\"q1\"`" + `
	} ` + "`yaml:\",inline\"`" + `
	Last string ` + "`yaml:\"last,omitempty\"`" + `
}

// Texts: types whose text the code has to spell out
type Texts struct {
	LA   [][128]bool
	MA   map[string][100]int8
	KA   map[[11]uint8]string
	LE   []struct{ Tagged }
	LEP  []struct{ *Tagged }
	LET  []struct {
		Tagged ` + "`yaml:\"tagged\"`" + `
		N      int ` + "`yaml:\"n,omitempty\"`" + `
	}
	LEI  []struct {
		Inl1 ` + "`yaml:\",inline\"`" + `
		foreign.Level
		l int
	}
	ME   map[string]struct {
		MyStr
		*MyInt
		custom.TextV
	}
	ML   map[MyStr][]map[MyInt]*[2]MyBool
	LMS  []map[struct{ A, B MyInt }]*struct{ T time.Time }
	LAS  [][2]struct{ A []foreign.Level }
	LR   [][]rune
	LBy  []map[string][4]byte
	LAny []map[string][]any
	PMS  []*map[string]*[]*MyStr
	LQ   []struct {
		Q int "yaml:\"q` + "`" + `uo\\\"te\" other:\"a\\tb\""
	}
}

type Customs struct {
	TV   TextV
	TP   TextP
	YV   YamV
	YP   YamP
	EV   ENGV
	EP   ENGP
	PTV  *TextV
	PTP  *TextP
	PYV  *YamV
	PYP  *YamP
	PEV  *ENGV
	PEP  *ENGP
	LTV  []TextV
	LTP  []TextP
	LYV  []YamV
	LYP  []YamP
	LEV  []ENGV
	LEP  []ENGP
	LPV  []*YamV
	LPE  []*ENGP
	AYV  [2]YamV
	AEP  [2]ENGP
	ATP  [2]TextP
	MYV  map[string]YamV
	MYP  map[YamP]YamP
	MTV  map[string]TextV
	MEP  map[string]ENGP
	MEV  map[TextP]ENGV
	FTV  custom.TextV
	FYP  custom.YamP
	FEV  custom.ENGV
	FEP  *custom.ENGP
	OTP  TextP  ` + "`yaml:\"otp,omitempty\"`" + `
	OYP  YamP   ` + "`yaml:\"oyp,omitempty\"`" + `
	OTV  TextV  ` + "`yaml:\"otv,omitempty\"`" + `
	OPYV *YamV  ` + "`yaml:\"opyv,omitempty\"`" + `
	OPEP *ENGP  ` + "`yaml:\"opep,omitempty\"`" + `
	OLY  []YamV ` + "`yaml:\"oly,omitempty\"`" + `
}

type Ifaces struct {
	A   any
	I   Iface
	E   interface{}
	L   []any
	LI  []Iface
	M   map[string]any
	MI  map[string]Iface
	AA  [2]any
	OA  any   ` + "`yaml:\"oa,omitempty\"`" + `
	OI  Iface ` + "`yaml:\"oi,omitempty\"`" + `
	End string
}

type List []Inner
type Dict map[string]*Inner
type Arr [2]Inner
type Num int32
type Raw []byte
type Str string
type Flt float64
type Flag bool

type Tree struct {
	V     int              ` + "`yaml:\"v\"`" + `
	L     *Tree            ` + "`yaml:\"l,omitempty\"`" + `
	R     *Tree            ` + "`yaml:\"r\"`" + `
	Kids  []Tree           ` + "`yaml:\"kids,omitempty\"`" + `
	Named map[string]*Tree ` + "`yaml:\"named\"`" + `
	Other *Mutual
}

type Mutual struct {
	T  Tree
	Ts []*Tree
}

type Foreigns struct {
	P  foreign.Point
	PP *foreign.Point
	L  foreign.Level
	B  foreign.Box
	T  decode.Thing
	LT []decode.Thing
	MB map[foreign.Level]foreign.Box
	foreign.Point ` + "`yaml:\",inline\"`" + `
}

type Paths struct {
	F [][]foreign.Point
	A0 fv1.P
	B0 [][]fv1.P
	C0 map[fv1.Q]*fv1.P
	D0 [2][1]*fv1.P
	A1 apiv4.P
	B1 [][]apiv4.P
	C1 map[apiv4.Q]*apiv4.P
	D1 [2][1]*apiv4.P
	A2 xv2.P
	B2 [][]xv2.P
	C2 map[xv2.Q]*xv2.P
	D2 [2][1]*xv2.P
	A3 mypkg.P
	B3 [][]mypkg.P
	C3 map[mypkg.Q]*mypkg.P
	D3 [2][1]*mypkg.P
	A4 lib.P
	B4 [][]lib.P
	C4 map[lib.Q]*lib.P
	D4 [2][1]*lib.P
	A5 three.P
	B5 [][]three.P
	C5 map[three.Q]*three.P
	D5 [2][1]*three.P
	A6 typ.P
	B6 [][]typ.P
	C6 map[typ.Q]*typ.P
	D6 [2][1]*typ.P
	A7 pkey.P
	B7 [][]pkey.P
	C7 map[pkey.Q]*pkey.P
	D7 [2][1]*pkey.P
	A8 pout.P
	B8 [][]pout.P
	C8 map[pout.Q]*pout.P
	D8 [2][1]*pout.P
}

type Clashes struct {
	T ptime.Time
	Ts []ptime.Time
	R time.Time
	A0 sa.P
	B0 [][]sa.P
	C0 map[sa.Q]*sa.P
	D0 [2][1]*sa.P
	A1 sb.P
	B1 [][]sb.P
	C1 map[sb.Q]*sb.P
	D1 [2][1]*sb.P
	A2 sc.P
	B2 [][]sc.P
	C2 map[sc.Q]*sc.P
	D2 [2][1]*sc.P
	A3 sd.P
	B3 [][]sd.P
	C3 map[sd.Q]*sd.P
	D3 [2][1]*sd.P
	A4 se.P
	B4 [][]se.P
	C4 map[se.Q]*se.P
	D4 [2][1]*se.P
	A5 pyaml.P
	B5 [][]pyaml.P
	C5 map[pyaml.Q]*pyaml.P
	D5 [2][1]*pyaml.P
	A6 pencode.P
	B6 [][]pencode.P
	C6 map[pencode.Q]*pencode.P
	D6 [2][1]*pencode.P
	A7 pyamly.P
	B7 [][]pyamly.P
	C7 map[pyamly.Q]*pyamly.P
	D7 [2][1]*pyamly.P
	A8 pstring.P
	B8 [][]pstring.P
	C8 map[pstring.Q]*pstring.P
	D8 [2][1]*pstring.P
	A9 plen.P
	B9 [][]plen.P
	C9 map[plen.Q]*plen.P
	D9 [2][1]*plen.P
}

type Ticks struct {
	A struct {
		X int "yaml:\"a` + "`" + `b\""
		Y struct {
			Z string "json:\"` + "``" + `\" yaml:\"back\\\\slash\""
		} "yaml:\"` + "`" + `\""
	}
	L []struct {
		X int "yaml:\"new\\nline\""
	}
	M map[struct {
		K string "yaml:\"` + "`k`" + `\""
	}]*struct {
		V *int "yaml:\"v` + "`" + `,omitempty\""
	}
}

type key string
type v1 struct {
	A int ` + "`yaml:\"a\"`" + `
}
type v2 struct {
	B *v1
	C [][]v1
	D []key
}
type v2Key uint8
type v3 []int
type m map[string]v3
type ok bool
type node struct {
	Next *node
	Kids []node
	Key  key
}

type Locals struct {
	F [][]v2
	K key
	L []key
	M map[key]v1
	P *key
	Q map[v2Key]map[v2Key]*v2
	A [2][2]v2
	T [][]v3
	U []m
	O []ok
	N []*node
	S struct {
		K []key
		V map[string][]v2
	}
}

// Holder is generated when the others have their methods already.
type Holder struct {
	T   Tree
	TP  *Tree
	L   []Inner
	LI  List
	D   Dict
	DP  *Dict
	A   Arr
	AL  []Arr
	N   Num
	NP  *Num
	NL  []Num
	R   Raw
	S   Str
	F   Flt
	B   Flag
	MT  map[string]Tree
	MN  map[Num]Num
	MS  map[Str]Raw
	AT  [2]Tree
	ON  Num   ` + "`yaml:\"on,omitempty\"`" + `
	OT  Tree  ` + "`yaml:\"ot,omitempty\"`" + `
	OL  List  ` + "`yaml:\"ol,omitempty\"`" + `
	OP  *Tree ` + "`yaml:\"op,omitempty\"`" + `
	Fo  Foreigns
	M   *Mutual
	End int
}
`
