// Code generated by tools/gen_types.py. DO NOT EDIT.

package main

import "time"

var _ time.Time

type nStr string
type nInt int
type nBool bool
type nFloat float64

type U0A struct {
	F0 nStr    `attr:"u0/s0,identity"`
	F1 int     `attr:"u0/s1,identity"`
	F2 int     `attr:"u0/s2,ignoreempty" json:"x,omitempty"`
	F3 int     `attr:"u0/s5" json:"x,omitempty"`
	F4 float64 `attr:"u0/s6"`
	F5 nFloat  `attr:"u0/s7,ignoreempty" json:"x,omitempty"`
	F6 *string `attr:"u0/s8"`
}

type U0B struct {
	F0 int      `attr:"u0/s3"`
	F1 *float64 `attr:"u0/s6" json:"x,omitempty"`
	F2 string   `attr:"u0/s0,ignoreempty,identity"`
	F3 int      `attr:"u0/s2"`
	F4 int      `attr:"u0/s1,identity" json:"x,omitempty"`
	F5 *float64 `attr:"u0/s4"`
	X6 func()   `json:"x"`
}

type U0C struct {
	F0 uint64   `attr:"sys/db/id" json:"x,omitempty"`
	F1 nInt     `attr:"u0/s1,identity"`
	F2 *int     `attr:"u0/s2"`
	F3 *int     `attr:"u0/s3" json:"x,omitempty"`
	F4 *float64 `attr:"u0/s6"`
	F5 string   `attr:"u0/s8"`
	X6 chan int `json:"x"`
}

type U0D struct {
	F0 uint64  `attr:"sys/db/id" json:"x,omitempty"`
	F1 *string `attr:"u0/s0" json:"x,omitempty"`
	F2 int     `attr:"u0/s1,identity" json:"x,omitempty"`
	F3 *int    `attr:"u0/s2"`
	F4 *int    `attr:"u0/s3"`
	F5 nFloat  `attr:"u0/s4"`
	F6 nFloat  `attr:"u0/s6" json:"x,omitempty"`
	F7 string  `attr:"u0/s8,ignoreempty"`
	X8 *int    `json:"x"`
}

type U1A struct {
	F0 *int      `attr:"u1/s1,unique"`
	F1 time.Time `attr:"u1/s4" json:"x,omitempty"`
	F2 string    `attr:"u1/s7,ignoreempty" json:"x,omitempty"`
}

type U1B struct {
	F0 uint64    `attr:"sys/db/id" json:"x,omitempty"`
	F1 time.Time `attr:"u1/s4"`
	F2 bool      `attr:"u1/s2,ignoreempty"`
	F3 string    `attr:"u1/s7,ignoreempty"`
	F4 int       `attr:"u1/s5,ignoreempty,unique"`
}

type U1C struct {
	F0 string     `attr:"u1/s3"`
	F1 *nInt      `attr:"u1/s6,identity"`
	F2 time.Time  `attr:"u1/s4"`
	F3 string     `attr:"u1/s7,ignoreempty" json:"x,omitempty"`
	F4 bool       `attr:"u1/s2,ignoreempty"`
	F5 nInt       `attr:"u1/s5,unique,ignoreempty"`
	F6 *time.Time `attr:"u1/s4"`
}

type U1D struct {
	F0 uint64    `attr:"sys/db/id"`
	F1 *nStr     `attr:"u1/s0"`
	F2 *bool     `attr:"u1/s2" json:"x,omitempty"`
	F3 nStr      `attr:"u1/s7" json:"x,omitempty"`
	F4 time.Time `attr:"u1/s4"`
	F5 string    `attr:"u1/s3,identity"`
	F6 int       `attr:"u1/s6,identity"`
	F7 nInt      `attr:"u1/s1,unique"`
	F8 int       `attr:"u1/s5,unique"`
	X9 *int
}

type U2A struct {
	F0 string     `attr:"u2/s0,ignoreempty"`
	F1 int        `attr:"u2/s2"`
	F2 *time.Time `attr:"u2/s3"`
	F3 *bool      `attr:"u2/s5" json:"x,omitempty"`
	F4 float64    `attr:"u2/s6" json:"x,omitempty"`
	X5 chan int
}

type U2B struct {
	F0 uint64    `attr:"sys/db/id"`
	F1 *string   `attr:"u2/s0" json:"x,omitempty"`
	F2 *int      `attr:"u2/s1" json:"x,omitempty"`
	F3 time.Time `attr:"u2/s3,ignoreempty" json:"x,omitempty"`
	F4 *bool     `attr:"u2/s4"`
	F5 bool      `attr:"u2/s5"`
	F6 *float64  `attr:"u2/s6"`
	X7 map[string]int
}

type U2C struct {
	F0 uint64     `attr:"sys/db/id"`
	F1 int        `attr:"u2/s2" json:"x,omitempty"`
	F2 *time.Time `attr:"u2/s3"`
	F3 bool       `attr:"u2/s4,ignoreempty" json:"x,omitempty"`
}

type U2D struct {
	F0 int     `attr:"u2/s1,ignoreempty" json:"x,omitempty"`
	F1 int     `attr:"u2/s2"`
	F2 bool    `attr:"u2/s4,ignoreempty"`
	F3 bool    `attr:"u2/s5"`
	F4 *nFloat `attr:"u2/s6" json:"x,omitempty"`
	X5 func()
}

type U3A struct {
	X0 string    `json:"x"`
	F1 time.Time `attr:"u3/s2,ignoreempty" json:"x,omitempty"`
	F2 float64   `attr:"u3/s5,unique"`
	F3 uint64    `attr:"sys/db/id"`
	F4 time.Time `attr:"u3/s4"`
	F5 bool      `attr:"u3/s3"`
}

type U3B struct {
	F0 bool      `attr:"u3/s3,ignoreempty"`
	F1 int       `attr:"u3/s1,identity"`
	F2 *string   `attr:"u3/s0,identity"`
	F3 time.Time `attr:"u3/s4"`
	F4 float64   `attr:"u3/s5,unique"`
}

type U3C struct {
	F0 uint64     `attr:"sys/db/id" json:"x,omitempty"`
	F1 string     `attr:"u3/s0,identity"`
	F2 int        `attr:"u3/s1,identity"`
	F3 time.Time  `attr:"u3/s2,ignoreempty"`
	F4 *bool      `attr:"u3/s3" json:"x,omitempty"`
	F5 *time.Time `attr:"u3/s4"`
	F6 float64    `attr:"u3/s5,unique,ignoreempty"`
	F7 *int       `attr:"u3/s1,identity" json:"x,omitempty"`
}

type U3D struct {
	F0 uint64    `attr:"sys/db/id"`
	F1 *int      `attr:"u3/s1"`
	F2 *bool     `attr:"u3/s3"`
	F3 time.Time `attr:"u3/s4"`
	F4 time.Time `attr:"u3/s2,ignoreempty"`
}

type U4A struct {
	F0  uint64    `attr:"sys/db/id"`
	F1  nInt      `attr:"u4/s1" json:"x,omitempty"`
	F2  *int      `attr:"u4/s2"`
	F3  nBool     `attr:"u4/s3"`
	F4  int       `attr:"u4/s4,ignoreempty"`
	F5  string    `attr:"u4/s5,identity"`
	F6  time.Time `attr:"u4/s6"`
	F7  *U4C      `attr:"u4/r0"`
	F8  *U4B      `attr:"u4/r1"`
	F9  []U4B     `attr:"u4/l0"`
	F10 []U4A     `attr:"u4/l1" json:"x,omitempty"`
	F11 []string  `attr:"u4/v1,value=u4/e1,ignoreempty" json:"x,omitempty"`
}

type U4B struct {
	F0  string    `attr:"u4/s0,identity" json:"x,omitempty"`
	F1  time.Time `attr:"u4/s6,ignoreempty"`
	F2  *bool     `attr:"u4/s3"`
	F3  *U4B      `attr:"u4/r1"`
	F4  *nInt     `attr:"u4/s2" json:"x,omitempty"`
	F5  []U4D     `attr:"u4/l1"`
	F6  string    `attr:"u4/s5,identity" json:"x,omitempty"`
	F7  *U4B      `attr:"u4/r0"`
	F8  int       `attr:"u4/s4"`
	F9  *int      `attr:"u4/s1"`
	F10 []string  `attr:"u4/v1,ignoreempty,value=u4/e1"`
}

type U4C struct {
	F0  uint64      `attr:"sys/db/id"`
	F1  int         `attr:"u4/s4"`
	F2  nInt        `attr:"u4/s2,ignoreempty"`
	F3  U4D         `attr:"u4/r1" json:"x,omitempty"`
	F4  time.Time   `attr:"u4/s7"`
	F5  bool        `attr:"u4/s3"`
	F6  nStr        `attr:"u4/s5,identity"`
	F7  *U4B        `attr:"u4/r0"`
	F8  time.Time   `attr:"u4/s6"`
	F9  []U4A       `attr:"u4/l1"`
	F10 []time.Time `attr:"u4/v0,value=u4/e0" json:"x,omitempty"`
}

type U4D struct {
	F0 uint64   `attr:"sys/db/id"`
	F1 string   `attr:"u4/s0,identity" json:"x,omitempty"`
	F2 []U4D    `attr:"u4/l1" json:"x,omitempty"`
	F3 *bool    `attr:"u4/s3" json:"x,omitempty"`
	F4 *U4A     `attr:"u4/r0" json:"x,omitempty"`
	F5 *U4C     `attr:"u4/r1"`
	F6 *string  `attr:"u4/s5,identity"`
	F7 int      `attr:"u4/s1"`
	F8 []string `attr:"u4/v1,value=u4/e1,ignoreempty"`
}

type U5A struct {
	F0 uint64    `attr:"sys/db/id"`
	F1 *U5C      `attr:"u5/r0"`
	F2 *U5B      `attr:"u5/r1"`
	F3 string    `attr:"u5/s0"`
	F4 U5B       `attr:"u5/r2"`
	F5 []string  `attr:"u5/v0,value=u5/e0" json:"x,omitempty"`
	F6 time.Time `attr:"u5/s3,unique" json:"x,omitempty"`
	F7 nInt      `attr:"u5/s1,identity"`
	F8 bool      `attr:"u5/s2"`
	F9 *string   `attr:"u5/s0"`
}

type U5B struct {
	F0 uint64         `attr:"sys/db/id"`
	F1 map[uint64]U5C `attr:"u5/m0" json:"x,omitempty"`
	F2 *U5A           `attr:"u5/r0" json:"x,omitempty"`
	F3 int            `attr:"u5/s1,identity" json:"x,omitempty"`
	F4 U5C            `attr:"u5/r1"`
	F5 []nStr         `attr:"u5/v1,value=u5/e0" json:"x,omitempty"`
}

type U5C struct {
	F0 string         `attr:"u5/s0"`
	F1 time.Time      `attr:"u5/s3,ignoreempty,unique"`
	F2 *U5C           `attr:"u5/r0" json:"x,omitempty"`
	F3 U5D            `attr:"u5/r1" json:"x,omitempty"`
	F4 *U5D           `attr:"u5/r2"`
	F5 map[string]U5C `attr:"u5/m0,key=u5/s0"`
	F6 uint64         `attr:"sys/db/id" json:"x,omitempty"`
	F7 []string       `attr:"u5/v0,value=u5/e0,ignoreempty"`
}

type U5D struct {
	F0 uint64          `attr:"sys/db/id"`
	F1 *U5D            `attr:"u5/r0"`
	F2 *U5C            `attr:"u5/r2" json:"x,omitempty"`
	F3 map[uint64]*U5A `attr:"u5/m0"`
	F4 string          `attr:"u5/s0,ignoreempty" json:"x,omitempty"`
	F5 time.Time       `attr:"u5/s3,unique"`
	F6 []string        `attr:"u5/v1,value=u5/e0"`
	F7 *bool           `attr:"u5/s2"`
}

type U6A struct {
	F0 []time.Time  `attr:"u6/v1,value=u6/e1,ignoreempty"`
	F1 uint64       `attr:"sys/db/id"`
	F2 nStr         `attr:"u6/s4"`
	F3 float64      `attr:"u6/s7,ignoreempty"`
	F4 nInt         `attr:"u6/s1,identity" json:"x,omitempty"`
	F5 *U6C         `attr:"u6/r0"`
	F6 nFloat       `attr:"u6/s3"`
	F7 nBool        `attr:"u6/s8"`
	F8 map[bool]U6B `attr:"u6/m0,key=u6/s8"`
}

type U6B struct {
	F0  uint64      `attr:"sys/db/id"`
	F1  []time.Time `attr:"u6/v1,value=u6/e1"`
	F2  *string     `attr:"u6/s4"`
	F3  *float64    `attr:"u6/s3" json:"x,omitempty"`
	F4  *string     `attr:"u6/s5"`
	F5  bool        `attr:"u6/s8" json:"x,omitempty"`
	F6  string      `attr:"u6/s0,identity"`
	F7  *time.Time  `attr:"u6/s2"`
	F8  bool        `attr:"u6/s6,ignoreempty"`
	F9  *float64    `attr:"u6/s7" json:"x,omitempty"`
	F10 int         `attr:"u6/s1,identity"`
	F11 *U6D        `attr:"u6/r0"`
}

type U6C struct {
	F0  uint64          `attr:"sys/db/id" json:"x,omitempty"`
	F1  []nStr          `attr:"u6/v0,ignoreempty,value=u6/e0"`
	F2  *string         `attr:"u6/s5"`
	F3  float64         `attr:"u6/s7" json:"x,omitempty"`
	F4  bool            `attr:"u6/s8"`
	F5  *float64        `attr:"u6/s3" json:"x,omitempty"`
	F6  string          `attr:"u6/s4"`
	F7  map[string]*U6C `attr:"u6/m1,key=u6/s4"`
	F8  map[bool]U6A    `attr:"u6/m0,key=u6/s8"`
	F9  time.Time       `attr:"u6/s2,ignoreempty"`
	F10 []time.Time     `attr:"u6/v1,ignoreempty,value=u6/e1" json:"x,omitempty"`
}

type U6D struct {
	F0 map[uint64]*U6B `attr:"u6/m0"`
	F1 nStr            `attr:"u6/s5"`
	F2 string          `attr:"u6/s0,identity"`
	F3 float64         `attr:"u6/s7" json:"x,omitempty"`
	F4 *bool           `attr:"u6/s8"`
	F5 int             `attr:"u6/s1,ignoreempty,identity"`
	F6 uint64          `attr:"sys/db/id"`
	F7 float64         `attr:"u6/s3,ignoreempty" json:"x,omitempty"`
}

type U7A struct {
	F0 map[string]U7A `attr:"u7/m0,key=u7/s0"`
	F1 int            `attr:"u7/s1" json:"x,omitempty"`
	F2 *time.Time     `attr:"u7/s4" json:"x,omitempty"`
	F3 int            `attr:"u7/s3,ignoreempty"`
	F4 nStr           `attr:"u7/s0,identity"`
	F5 *U7C           `attr:"u7/r1"`
	F6 *U7B           `attr:"u7/r0"`
	F7 string         `attr:"u7/s2" json:"x,omitempty"`
}

type U7B struct {
	F0 uint64    `attr:"sys/db/id"`
	F1 string    `attr:"u7/s0,identity"`
	F2 *U7D      `attr:"u7/r1"`
	F3 time.Time `attr:"u7/s4,ignoreempty"`
	F4 []float64 `attr:"u7/v1,value=u7/e1"`
	F5 nStr      `attr:"u7/s2,ignoreempty" json:"x,omitempty"`
}

type U7C struct {
	F0 *U7A          `attr:"u7/r0" json:"x,omitempty"`
	F1 []time.Time   `attr:"u7/v0,value=u7/e0" json:"x,omitempty"`
	F2 *time.Time    `attr:"u7/s4"`
	F3 nInt          `attr:"u7/s1"`
	F4 *U7A          `attr:"u7/r1" json:"x,omitempty"`
	F5 *int          `attr:"u7/s3"`
	F6 map[nInt]*U7C `attr:"u7/m0,key=u7/s1"`
	F7 string        `attr:"u7/s0,identity,ignoreempty"`
}

type U7D struct {
	F0 *U7D        `attr:"u7/r1" json:"x,omitempty"`
	F1 int         `attr:"u7/s3"`
	F2 []float64   `attr:"u7/v1,value=u7/e1,ignoreempty"`
	F3 int         `attr:"u7/s1,ignoreempty"`
	F4 map[int]U7D `attr:"u7/m0,key=u7/s3" json:"x,omitempty"`
	F5 string      `attr:"u7/s2"`
	F6 time.Time   `attr:"u7/s4,ignoreempty" json:"x,omitempty"`
	F7 string      `attr:"u7/s0,ignoreempty,identity"`
	F8 []time.Time `attr:"u7/v0,value=u7/e0,ignoreempty"`
}

type U8A struct {
	F0 uint64          `attr:"sys/db/id" json:"x,omitempty"`
	F1 *nInt           `attr:"u8/s1"`
	F2 *float64        `attr:"u8/s2"`
	F3 nInt            `attr:"u8/s3,unique"`
	F4 int             `attr:"u8/s4"`
	F5 string          `attr:"u8/s5,unique" json:"x,omitempty"`
	F6 []U8D           `attr:"u8/l0"`
	F7 map[uint64]*U8B `attr:"u8/m1" json:"x,omitempty"`
	F8 []bool          `attr:"u8/v1,value=u8/e1" json:"x,omitempty"`
}

type U8B struct {
	F0 *int            `attr:"u8/s1"`
	F1 *float64        `attr:"u8/s2"`
	F2 *int            `attr:"u8/s3,unique"`
	F3 uint64          `attr:"sys/db/id" json:"x,omitempty"`
	F4 *string         `attr:"u8/s5,unique" json:"x,omitempty"`
	F5 []U8B           `attr:"u8/l0"`
	F6 map[string]*U8A `attr:"u8/m1,key=u8/s5" json:"x,omitempty"`
	F7 []bool          `attr:"u8/v0,value=u8/e0"`
	F8 []bool          `attr:"u8/v1,value=u8/e1"`
}

type U8C struct {
	F0 uint64          `attr:"sys/db/id" json:"x,omitempty"`
	F1 *string         `attr:"u8/s0,identity"`
	F2 int             `attr:"u8/s1"`
	F3 float64         `attr:"u8/s2,ignoreempty"`
	F4 *int            `attr:"u8/s3,unique" json:"x,omitempty"`
	F5 *string         `attr:"u8/s5,unique"`
	F6 *U8A            `attr:"u8/r0"`
	F7 []U8C           `attr:"u8/l0" json:"x,omitempty"`
	F8 map[uint64]*U8A `attr:"u8/m0"`
	F9 map[int]*U8C    `attr:"u8/m1,key=u8/s1"`
}

type U8D struct {
	F0 uint64 `attr:"sys/db/id" json:"x,omitempty"`
	F1 int    `attr:"u8/s4"`
	F2 []bool `attr:"u8/v0,value=u8/e0" json:"x,omitempty"`
	F3 nStr   `attr:"u8/s0,identity"`
	F4 int    `attr:"u8/s1,ignoreempty"`
	F5 *U8C   `attr:"u8/r0"`
}

type U9A struct {
	F0 uint64       `attr:"sys/db/id"`
	F1 float64      `attr:"u9/s4"`
	F2 string       `attr:"u9/s0,ignoreempty"`
	F3 map[nInt]U9B `attr:"u9/m1,key=u9/s1"`
	F4 *nInt        `attr:"u9/s6,unique" json:"x,omitempty"`
	F5 string       `attr:"u9/s5" json:"x,omitempty"`
	F6 *U9B         `attr:"u9/r0"`
	F7 time.Time    `attr:"u9/s3"`
	F8 *string      `attr:"u9/s5"`
}

type U9B struct {
	F0 nInt       `attr:"u9/s2,ignoreempty" json:"x,omitempty"`
	F1 float64    `attr:"u9/s4"`
	F2 uint64     `attr:"sys/db/id"`
	F3 *U9C       `attr:"u9/r0"`
	F4 float64    `attr:"u9/s8" json:"x,omitempty"`
	F5 int        `attr:"u9/s1,unique" json:"x,omitempty"`
	F6 *string    `attr:"u9/s5"`
	F7 *time.Time `attr:"u9/s3"`
	X8 string
	F9 map[float64]*U9C `attr:"u9/m0,key=u9/s4" json:"x,omitempty"`
}

type U9C struct {
	F0 uint64           `attr:"sys/db/id"`
	F1 float64          `attr:"u9/s7"`
	F2 *time.Time       `attr:"u9/s3" json:"x,omitempty"`
	F3 int              `attr:"u9/s2,ignoreempty" json:"x,omitempty"`
	F4 nFloat           `attr:"u9/s4" json:"x,omitempty"`
	F5 float64          `attr:"u9/s8"`
	F6 nStr             `attr:"u9/s0,ignoreempty" json:"x,omitempty"`
	F7 map[float64]*U9C `attr:"u9/m1,key=u9/s8"`
	F8 *U9C             `attr:"u9/r0"`
}

type U9D struct {
	F0 string           `attr:"u9/s0" json:"x,omitempty"`
	F1 *nInt            `attr:"u9/s2"`
	F2 time.Time        `attr:"u9/s3"`
	F3 *float64         `attr:"u9/s4"`
	F4 string           `attr:"u9/s5"`
	F5 int              `attr:"u9/s6,unique"`
	F6 float64          `attr:"u9/s7" json:"x,omitempty"`
	F7 float64          `attr:"u9/s8"`
	F8 map[float64]*U9A `attr:"u9/m0,key=u9/s4"`
	F9 map[float64]*U9B `attr:"u9/m1,key=u9/s8" json:"x,omitempty"`
}

type U10A struct {
	F0  uint64    `attr:"sys/db/id"`
	F1  time.Time `attr:"u10/s5,ignoreempty"`
	F2  int       `attr:"u10/s8"`
	F3  *string   `attr:"u10/s0"`
	F4  float64   `attr:"u10/s2,unique" json:"x,omitempty"`
	F5  bool      `attr:"u10/s3"`
	F6  float64   `attr:"u10/s6" json:"x,omitempty"`
	F7  *U10D     `attr:"u10/r1"`
	F8  nBool     `attr:"u10/s4"`
	F9  int       `attr:"u10/s1"`
	F10 []U10B    `attr:"u10/l0"`
	F11 *float64  `attr:"u10/s6"`
}

type U10B struct {
	F0 []bool    `attr:"u10/v1,ignoreempty,value=u10/e1"`
	F1 int       `attr:"u10/s8"`
	F2 float64   `attr:"u10/s6"`
	F3 *bool     `attr:"u10/s3" json:"x,omitempty"`
	F4 []bool    `attr:"u10/v0,value=u10/e0"`
	F5 time.Time `attr:"u10/s5"`
	F6 int       `attr:"u10/s1,ignoreempty"`
	F7 string    `attr:"u10/s7"`
	X8 chan int  `json:"x"`
}

type U10C struct {
	F0  *nInt     `attr:"u10/s1"`
	F1  []nBool   `attr:"u10/v1,ignoreempty,value=u10/e1"`
	F2  U10D      `attr:"u10/r1"`
	F3  nStr      `attr:"u10/s0" json:"x,omitempty"`
	F4  *U10A     `attr:"u10/r0" json:"x,omitempty"`
	F5  bool      `attr:"u10/s3" json:"x,omitempty"`
	F6  string    `attr:"u10/s7,ignoreempty" json:"x,omitempty"`
	F7  uint64    `attr:"sys/db/id"`
	F8  []bool    `attr:"u10/v0,value=u10/e0" json:"x,omitempty"`
	F9  time.Time `attr:"u10/s5,ignoreempty" json:"x,omitempty"`
	F10 float64   `attr:"u10/s2,unique"`
	F11 int       `attr:"u10/s8,ignoreempty" json:"x,omitempty"`
	F12 *nFloat   `attr:"u10/s6"`
}

type U10D struct {
	F0 uint64   `attr:"sys/db/id"`
	F1 bool     `attr:"u10/s4,ignoreempty"`
	F2 string   `attr:"u10/s0"`
	F3 nBool    `attr:"u10/s3"`
	F4 float64  `attr:"u10/s2,unique"`
	F5 float64  `attr:"u10/s6"`
	F6 *U10B    `attr:"u10/r1" json:"x,omitempty"`
	F7 *int     `attr:"u10/s1" json:"x,omitempty"`
	X8 string   `json:"x"`
	F9 *float64 `attr:"u10/s6"`
}

type U11A struct {
	F0 []string         `attr:"u11/v1,value=u11/e1,ignoreempty"`
	F1 map[string]*U11C `attr:"u11/m0,key=u11/s0"`
	F2 time.Time        `attr:"u11/s2"`
	F3 *time.Time       `attr:"u11/s3" json:"x,omitempty"`
	F4 nStr             `attr:"u11/s0,identity,ignoreempty"`
	F5 uint64           `attr:"sys/db/id" json:"x,omitempty"`
	F6 U11C             `attr:"u11/r0"`
	F7 []float64        `attr:"u11/v0,ignoreempty,value=u11/e0"`
	F8 int              `attr:"u11/s1" json:"x,omitempty"`
	F9 *string          `attr:"u11/s0,identity" json:"x,omitempty"`
}

type U11B struct {
	F0 *int             `attr:"u11/s1"`
	F1 time.Time        `attr:"u11/s2,ignoreempty"`
	F2 time.Time        `attr:"u11/s3"`
	F3 time.Time        `attr:"u11/s5"`
	F4 *U11C            `attr:"u11/r0"`
	F5 map[uint64]*U11D `attr:"u11/m0"`
	F6 []float64        `attr:"u11/v0,value=u11/e0,ignoreempty" json:"x,omitempty"`
	F7 *time.Time       `attr:"u11/s3"`
}

type U11C struct {
	F0 int       `attr:"u11/s4"`
	F1 []string  `attr:"u11/v1,ignoreempty,value=u11/e1" json:"x,omitempty"`
	F2 []float64 `attr:"u11/v0,value=u11/e0"`
	F3 string    `attr:"u11/s0,identity"`
	F4 time.Time `attr:"u11/s5"`
	X5 chan int
	F6 nInt  `attr:"u11/s1" json:"x,omitempty"`
	F7 *U11B `attr:"u11/r0" json:"x,omitempty"`
}

type U11D struct {
	F0 uint64    `attr:"sys/db/id" json:"x,omitempty"`
	F1 *nStr     `attr:"u11/s0,identity"`
	F2 time.Time `attr:"u11/s2"`
	F3 time.Time `attr:"u11/s3"`
	F4 *U11C     `attr:"u11/r0"`
	F5 []float64 `attr:"u11/v0,value=u11/e0"`
}

type U12A struct {
	F0 uint64  `attr:"sys/db/id"`
	F1 *string `attr:"u12/s0"`
	F2 nFloat  `attr:"u12/s2,ignoreempty"`
	F3 int     `attr:"u12/s4"`
	F4 U12D    `attr:"u12/r1"`
	F5 []U12C  `attr:"u12/l0"`
	X6 []int32
}

type U12B struct {
	F0  string       `attr:"u12/s0"`
	F1  *int         `attr:"u12/s1" json:"x,omitempty"`
	F2  float64      `attr:"u12/s2,ignoreempty"`
	F3  float64      `attr:"u12/s3" json:"x,omitempty"`
	F4  uint64       `attr:"sys/db/id"`
	F5  int          `attr:"u12/s4,ignoreempty"`
	F6  *U12B        `attr:"u12/r0" json:"x,omitempty"`
	F7  []U12B       `attr:"u12/l0" json:"x,omitempty"`
	F8  map[int]U12A `attr:"u12/m0,key=u12/s4" json:"x,omitempty"`
	F9  []int        `attr:"u12/v0,value=u12/e0" json:"x,omitempty"`
	F10 []float64    `attr:"u12/v1,value=u12/e1"`
}

type U12C struct {
	F0 *string      `attr:"u12/s0"`
	F1 []U12C       `attr:"u12/l0" json:"x,omitempty"`
	F2 int          `attr:"u12/s4"`
	F3 U12D         `attr:"u12/r0"`
	F4 []nFloat     `attr:"u12/v1,value=u12/e1,ignoreempty"`
	F5 uint64       `attr:"sys/db/id" json:"x,omitempty"`
	F6 []int        `attr:"u12/v0,value=u12/e0"`
	F7 map[int]U12A `attr:"u12/m0,key=u12/s4" json:"x,omitempty"`
	F8 int          `attr:"u12/s1"`
}

type U12D struct {
	F0 string   `attr:"u12/s0" json:"x,omitempty"`
	F1 *int     `attr:"u12/s1"`
	F2 *float64 `attr:"u12/s2"`
	F3 *float64 `attr:"u12/s3" json:"x,omitempty"`
	F4 *U12D    `attr:"u12/r0"`
	F5 []U12B   `attr:"u12/l0"`
}

type U13A struct {
	F0 string  `attr:"u13/s4,identity,ignoreempty" json:"x,omitempty"`
	F1 U13D    `attr:"u13/r1"`
	F2 *bool   `attr:"u13/s6"`
	F3 uint64  `attr:"sys/db/id"`
	F4 string  `attr:"u13/s0,identity" json:"x,omitempty"`
	F5 *U13D   `attr:"u13/r0"`
	F6 string  `attr:"u13/s2" json:"x,omitempty"`
	F7 *int    `attr:"u13/s3"`
	F8 int     `attr:"u13/s1,ignoreempty"`
	F9 *string `attr:"u13/s0,identity"`
}

type U13B struct {
	F0 int         `attr:"u13/s1,ignoreempty" json:"x,omitempty"`
	F1 string      `attr:"u13/s2"`
	F2 string      `attr:"u13/s4,identity"`
	F3 *float64    `attr:"u13/s5,identity" json:"x,omitempty"`
	F4 bool        `attr:"u13/s6" json:"x,omitempty"`
	F5 *U13A       `attr:"u13/r1"`
	F6 []U13B      `attr:"u13/l0"`
	F7 []time.Time `attr:"u13/v0,ignoreempty,value=u13/e0" json:"x,omitempty"`
}

type U13C struct {
	F0 uint64  `attr:"sys/db/id" json:"x,omitempty"`
	F1 *bool   `attr:"u13/s6" json:"x,omitempty"`
	F2 string  `attr:"u13/s2,ignoreempty" json:"x,omitempty"`
	F3 U13D    `attr:"u13/r1"`
	F4 *string `attr:"u13/s4,identity"`
	F5 nInt    `attr:"u13/s1" json:"x,omitempty"`
	F6 float64 `attr:"u13/s5,ignoreempty,identity"`
	F7 *string `attr:"u13/s0,identity" json:"x,omitempty"`
}

type U13D struct {
	F0 *string     `attr:"u13/s0,identity"`
	F1 *int        `attr:"u13/s3" json:"x,omitempty"`
	F2 string      `attr:"u13/s4"`
	F3 *U13A       `attr:"u13/r0"`
	F4 []time.Time `attr:"u13/v0,value=u13/e0,ignoreempty"`
}

type U14A struct {
	F0  bool            `attr:"u14/s3"`
	F1  string          `attr:"u14/s0,identity"`
	F2  []U14B          `attr:"u14/l1"`
	F3  U14B            `attr:"u14/r2" json:"x,omitempty"`
	F4  float64         `attr:"u14/s6,unique" json:"x,omitempty"`
	F5  string          `attr:"u14/s4"`
	F6  map[string]U14C `attr:"u14/m0,key=u14/s4"`
	F7  int             `attr:"u14/s1"`
	F8  []int           `attr:"u14/v1,value=u14/e1"`
	F9  int             `attr:"u14/s2"`
	F10 *U14A           `attr:"u14/r1"`
}

type U14B struct {
	F0 uint64    `attr:"sys/db/id"`
	F1 *U14B     `attr:"u14/r2"`
	F2 *string   `attr:"u14/s0,identity"`
	F3 float64   `attr:"u14/s6,unique"`
	F4 *U14C     `attr:"u14/r1" json:"x,omitempty"`
	F5 U14D      `attr:"u14/r0"`
	F6 []nBool   `attr:"u14/v0,value=u14/e0"`
	F7 time.Time `attr:"u14/s5" json:"x,omitempty"`
	F8 int       `attr:"u14/s2,ignoreempty"`
}

type U14C struct {
	F0  uint64           `attr:"sys/db/id"`
	F1  string           `attr:"u14/s4"`
	F2  bool             `attr:"u14/s3"`
	F3  U14D             `attr:"u14/r1"`
	F4  map[string]*U14D `attr:"u14/m0,key=u14/s0"`
	F5  []U14B           `attr:"u14/l1"`
	F6  U14D             `attr:"u14/r2" json:"x,omitempty"`
	F7  []nInt           `attr:"u14/v1,value=u14/e1"`
	F8  *string          `attr:"u14/s0,identity" json:"x,omitempty"`
	F9  *float64         `attr:"u14/s6,unique" json:"x,omitempty"`
	F10 []bool           `attr:"u14/v0,value=u14/e0,ignoreempty" json:"x,omitempty"`
	F11 *time.Time       `attr:"u14/s5" json:"x,omitempty"`
}

type U14D struct {
	F0 uint64       `attr:"sys/db/id" json:"x,omitempty"`
	F1 []U14A       `attr:"u14/l1"`
	F2 *int         `attr:"u14/s1"`
	F3 []U14A       `attr:"u14/l0"`
	F4 []int        `attr:"u14/v1,value=u14/e1" json:"x,omitempty"`
	F5 *U14B        `attr:"u14/r1"`
	F6 string       `attr:"u14/s0,identity"`
	F7 *time.Time   `attr:"u14/s5"`
	F8 *U14B        `attr:"u14/r0"`
	F9 map[int]U14A `attr:"u14/m0,key=u14/s1"`
}

type U15A struct {
	F0 time.Time     `attr:"u15/s4,identity"`
	F1 map[int]*U15B `attr:"u15/m0,key=u15/s1"`
	F2 *U15B         `attr:"u15/r1" json:"x,omitempty"`
	X3 map[string]int
	F4 bool `attr:"u15/s7" json:"x,omitempty"`
	F5 nStr `attr:"u15/s0,ignoreempty,identity" json:"x,omitempty"`
	F6 U15B `attr:"u15/r0"`
}

type U15B struct {
	F0  uint64         `attr:"sys/db/id" json:"x,omitempty"`
	F1  map[int]U15B   `attr:"u15/m0,key=u15/s2"`
	F2  map[bool]*U15A `attr:"u15/m1,key=u15/s7" json:"x,omitempty"`
	F3  *U15C          `attr:"u15/r0"`
	F4  string         `attr:"u15/s0,identity"`
	F5  *time.Time     `attr:"u15/s3"`
	F6  int            `attr:"u15/s2"`
	F7  []U15C         `attr:"u15/l0" json:"x,omitempty"`
	F8  []float64      `attr:"u15/v1,value=u15/e1"`
	F9  []int          `attr:"u15/v0,ignoreempty,value=u15/e0"`
	F10 int            `attr:"u15/s1"`
}

type U15C struct {
	F0  uint64           `attr:"sys/db/id"`
	F1  int              `attr:"u15/s1,ignoreempty"`
	F2  []U15D           `attr:"u15/l0" json:"x,omitempty"`
	F3  *time.Time       `attr:"u15/s5,identity" json:"x,omitempty"`
	F4  *U15D            `attr:"u15/r0" json:"x,omitempty"`
	F5  []float64        `attr:"u15/v1,ignoreempty,value=u15/e1"`
	F6  int              `attr:"u15/s2"`
	F7  *string          `attr:"u15/s0,identity"`
	F8  map[int]*U15C    `attr:"u15/m0,key=u15/s2"`
	F9  bool             `attr:"u15/s7,ignoreempty" json:"x,omitempty"`
	F10 *bool            `attr:"u15/s8"`
	F11 []int            `attr:"u15/v0,value=u15/e0" json:"x,omitempty"`
	F12 U15D             `attr:"u15/r1"`
	F13 *time.Time       `attr:"u15/s3"`
	F14 time.Time        `attr:"u15/s4,identity"`
	F15 map[string]*U15B `attr:"u15/m1,key=u15/s0"`
}

type U15D struct {
	F0  uint64       `attr:"sys/db/id"`
	F1  time.Time    `attr:"u15/s4,identity"`
	F2  int          `attr:"u15/s2"`
	F3  string       `attr:"u15/s0,ignoreempty,identity" json:"x,omitempty"`
	F4  map[int]U15C `attr:"u15/m0,key=u15/s2" json:"x,omitempty"`
	F5  time.Time    `attr:"u15/s5,identity" json:"x,omitempty"`
	F6  []float64    `attr:"u15/v1,value=u15/e1" json:"x,omitempty"`
	F7  int          `attr:"u15/s1,ignoreempty"`
	F8  time.Time    `attr:"u15/s3"`
	F9  time.Time    `attr:"u15/s6,unique"`
	F10 map[int]U15D `attr:"u15/m1,key=u15/s2" json:"x,omitempty"`
	F11 *U15D        `attr:"u15/r0"`
}

type U16A struct {
	F0 string   `attr:"u16/s0,ignoreempty"`
	F1 int      `attr:"u16/s1" json:"x,omitempty"`
	F2 *int     `attr:"u16/s2,identity"`
	F3 nInt     `attr:"u16/s4,identity,ignoreempty"`
	F4 *U16A    `attr:"u16/r1" json:"x,omitempty"`
	F5 []nFloat `attr:"u16/v0,value=u16/e0"`
	F6 uint64   `attr:"sys/db/id" json:"x,omitempty"`
}

type U16B struct {
	X0 func()  `json:"x"`
	F1 *U16D   `attr:"u16/r0"`
	F2 *int    `attr:"u16/s3"`
	F3 nInt    `attr:"u16/s1" json:"x,omitempty"`
	F4 *string `attr:"u16/s0" json:"x,omitempty"`
}

type U16C struct {
	F0 int       `attr:"u16/s2,identity,ignoreempty"`
	F1 *nStr     `attr:"u16/s0"`
	F2 int       `attr:"u16/s1"`
	F3 []float64 `attr:"u16/v0,value=u16/e0"`
	F4 int       `attr:"u16/s3,ignoreempty" json:"x,omitempty"`
	X5 []int32
	F6 int   `attr:"u16/s4,ignoreempty,identity"`
	F7 *U16C `attr:"u16/r0" json:"x,omitempty"`
}

type U16D struct {
	F0 *string   `attr:"u16/s0"`
	F1 *nInt     `attr:"u16/s2,identity"`
	F2 int       `attr:"u16/s3" json:"x,omitempty"`
	F3 *U16C     `attr:"u16/r0"`
	F4 *U16D     `attr:"u16/r1"`
	F5 []float64 `attr:"u16/v0,value=u16/e0"`
	F6 uint64    `attr:"sys/db/id"`
}

type U17A struct {
	F0 uint64      `attr:"sys/db/id"`
	F1 nBool       `attr:"u17/s5"`
	F2 []float64   `attr:"u17/v1,value=u17/e1" json:"x,omitempty"`
	F3 bool        `attr:"u17/s2"`
	F4 *U17A       `attr:"u17/r0" json:"x,omitempty"`
	F5 []time.Time `attr:"u17/v0,value=u17/e0,ignoreempty"`
	F6 nBool       `attr:"u17/s3,ignoreempty"`
	X7 any         `json:"x"`
	F8 string      `attr:"u17/s0,identity" json:"x,omitempty"`
	F9 float64     `attr:"u17/s6,ignoreempty"`
}

type U17B struct {
	F0 string          `attr:"u17/s0,identity"`
	F1 *nInt           `attr:"u17/s1" json:"x,omitempty"`
	F2 float64         `attr:"u17/s4,ignoreempty,unique"`
	F3 bool            `attr:"u17/s5"`
	F4 nStr            `attr:"u17/s8"`
	F5 map[nBool]*U17B `attr:"u17/m1,key=u17/s5" json:"x,omitempty"`
	F6 []time.Time     `attr:"u17/v0,ignoreempty,value=u17/e0" json:"x,omitempty"`
}

type U17C struct {
	F0  []float64        `attr:"u17/v1,value=u17/e1" json:"x,omitempty"`
	F1  *nStr            `attr:"u17/s0,identity"`
	F2  *time.Time       `attr:"u17/s7,identity"`
	F3  map[float64]U17D `attr:"u17/m0,key=u17/s4"`
	F4  *string          `attr:"u17/s8"`
	F5  uint64           `attr:"sys/db/id"`
	F6  *bool            `attr:"u17/s2"`
	F7  *U17A            `attr:"u17/r0"`
	F8  float64          `attr:"u17/s4,unique"`
	F9  map[nBool]*U17A  `attr:"u17/m1,key=u17/s2"`
	F10 *bool            `attr:"u17/s3"`
	F11 *nBool           `attr:"u17/s5"`
}

type U17D struct {
	F0  uint64           `attr:"sys/db/id"`
	F1  int              `attr:"u17/s1,ignoreempty"`
	F2  bool             `attr:"u17/s2"`
	F3  bool             `attr:"u17/s3" json:"x,omitempty"`
	F4  float64          `attr:"u17/s4,unique" json:"x,omitempty"`
	F5  *bool            `attr:"u17/s5"`
	F6  *nFloat          `attr:"u17/s6"`
	F7  time.Time        `attr:"u17/s7,ignoreempty,identity"`
	F8  *U17A            `attr:"u17/r0"`
	F9  map[uint64]*U17D `attr:"u17/m0"`
	F10 map[bool]U17A    `attr:"u17/m1,key=u17/s5" json:"x,omitempty"`
	F11 []time.Time      `attr:"u17/v0,value=u17/e0" json:"x,omitempty"`
	F12 []float64        `attr:"u17/v1,value=u17/e1,ignoreempty"`
}

type U18A struct {
	F0 nInt          `attr:"u18/s1,unique"`
	F1 *U18C         `attr:"u18/r0" json:"x,omitempty"`
	F2 *bool         `attr:"u18/s2" json:"x,omitempty"`
	F3 []U18C        `attr:"u18/l1"`
	F4 string        `attr:"u18/s0,ignoreempty"`
	F5 string        `attr:"u18/s3"`
	F6 bool          `attr:"u18/s4"`
	F7 uint64        `attr:"sys/db/id"`
	F8 map[bool]U18D `attr:"u18/m1,key=u18/s4"`
	F9 []bool        `attr:"u18/v0,value=u18/e0"`
}

type U18B struct {
	F0 uint64         `attr:"sys/db/id"`
	F1 int            `attr:"u18/s1,unique,ignoreempty"`
	F2 bool           `attr:"u18/s4"`
	F3 string         `attr:"u18/s3,ignoreempty" json:"x,omitempty"`
	F4 []bool         `attr:"u18/v0,value=u18/e0,ignoreempty" json:"x,omitempty"`
	F5 *string        `attr:"u18/s0"`
	F6 map[bool]U18B  `attr:"u18/m1,key=u18/s4"`
	F7 []U18A         `attr:"u18/l0"`
	F8 []U18B         `attr:"u18/l1"`
	F9 map[bool]*U18D `attr:"u18/m0,key=u18/s4" json:"x,omitempty"`
}

type U18C struct {
	F0 string           `attr:"u18/s0"`
	F1 *nBool           `attr:"u18/s2"`
	F2 bool             `attr:"u18/s4,ignoreempty" json:"x,omitempty"`
	F3 U18D             `attr:"u18/r0"`
	F4 map[string]*U18A `attr:"u18/m0,key=u18/s3"`
	F5 map[nStr]*U18C   `attr:"u18/m1,key=u18/s0"`
}

type U18D struct {
	F0 []bool  `attr:"u18/v0,value=u18/e0"`
	F1 uint64  `attr:"sys/db/id" json:"x,omitempty"`
	F2 string  `attr:"u18/s3"`
	F3 []U18C  `attr:"u18/l1" json:"x,omitempty"`
	X4 any     `json:"x"`
	F5 nBool   `attr:"u18/s4"`
	F6 *U18D   `attr:"u18/r0"`
	F7 *int    `attr:"u18/s1,unique"`
	F8 *string `attr:"u18/s0"`
}

type U19A struct {
	F0 *int             `attr:"u19/s1"`
	F1 map[uint64]U19B  `attr:"u19/m0"`
	F2 bool             `attr:"u19/s4"`
	F3 nInt             `attr:"u19/s6,ignoreempty"`
	F4 *U19A            `attr:"u19/r0" json:"x,omitempty"`
	F5 *nInt            `attr:"u19/s5,unique"`
	F6 map[uint64]*U19D `attr:"u19/m1"`
	F7 []U19C           `attr:"u19/l1"`
	F8 string           `attr:"u19/s0"`
}

type U19B struct {
	F0 int            `attr:"u19/s1" json:"x,omitempty"`
	F1 time.Time      `attr:"u19/s2,unique" json:"x,omitempty"`
	F2 []time.Time    `attr:"u19/v0,value=u19/e0" json:"x,omitempty"`
	F3 bool           `attr:"u19/s4" json:"x,omitempty"`
	F4 time.Time      `attr:"u19/s3,unique,ignoreempty"`
	F5 map[nBool]U19D `attr:"u19/m1,key=u19/s4" json:"x,omitempty"`
	F6 nStr           `attr:"u19/s0"`
	F7 map[bool]*U19A `attr:"u19/m0,key=u19/s4"`
	F8 uint64         `attr:"sys/db/id" json:"x,omitempty"`
	F9 []U19D         `attr:"u19/l0"`
}

type U19C struct {
	F0  int             `attr:"u19/s1,ignoreempty" json:"x,omitempty"`
	F1  time.Time       `attr:"u19/s2,unique" json:"x,omitempty"`
	F2  time.Time       `attr:"u19/s3,unique"`
	F3  int             `attr:"u19/s6"`
	F4  U19D            `attr:"u19/r0"`
	F5  *U19D           `attr:"u19/r1"`
	F6  uint64          `attr:"sys/db/id" json:"x,omitempty"`
	F7  []U19D          `attr:"u19/l0" json:"x,omitempty"`
	F8  []U19B          `attr:"u19/l1" json:"x,omitempty"`
	F9  map[string]U19B `attr:"u19/m0,key=u19/s0" json:"x,omitempty"`
	F10 map[int]U19C    `attr:"u19/m1,key=u19/s6" json:"x,omitempty"`
}

type U19D struct {
	F0  uint64         `attr:"sys/db/id"`
	F1  *string        `attr:"u19/s0"`
	F2  *int           `attr:"u19/s1"`
	F3  time.Time      `attr:"u19/s2,unique"`
	F4  time.Time      `attr:"u19/s3,unique" json:"x,omitempty"`
	F5  nBool          `attr:"u19/s4" json:"x,omitempty"`
	F6  int            `attr:"u19/s5,unique" json:"x,omitempty"`
	F7  *int           `attr:"u19/s6"`
	F8  *U19A          `attr:"u19/r1"`
	F9  []U19C         `attr:"u19/l0"`
	F10 []U19D         `attr:"u19/l1" json:"x,omitempty"`
	F11 map[nBool]U19D `attr:"u19/m1,key=u19/s4"`
	F12 *int           `attr:"u19/s5,unique"`
}

type U20A struct {
	F0 uint64      `attr:"sys/db/id" json:"x,omitempty"`
	F1 int         `attr:"u20/s1,ignoreempty" json:"x,omitempty"`
	F2 time.Time   `attr:"u20/s3"`
	F3 *bool       `attr:"u20/s4"`
	F4 *float64    `attr:"u20/s5"`
	F5 U20B        `attr:"u20/r0"`
	F6 *U20D       `attr:"u20/r1" json:"x,omitempty"`
	F7 []time.Time `attr:"u20/v0,value=u20/e0" json:"x,omitempty"`
}

type U20B struct {
	F0 uint64      `attr:"sys/db/id" json:"x,omitempty"`
	F1 float64     `attr:"u20/s5"`
	F2 int         `attr:"u20/s1,ignoreempty"`
	F3 time.Time   `attr:"u20/s3,ignoreempty" json:"x,omitempty"`
	F4 []time.Time `attr:"u20/v0,value=u20/e0"`
	F5 bool        `attr:"u20/s4" json:"x,omitempty"`
	F6 *U20D       `attr:"u20/r1"`
	F7 bool        `attr:"u20/s2,ignoreempty"`
}

type U20C struct {
	F0 uint64      `attr:"sys/db/id"`
	F1 *string     `attr:"u20/s0,identity"`
	F2 int         `attr:"u20/s1,ignoreempty"`
	F3 time.Time   `attr:"u20/s3"`
	F4 *bool       `attr:"u20/s4"`
	F5 float64     `attr:"u20/s5"`
	F6 *U20D       `attr:"u20/r0" json:"x,omitempty"`
	F7 []U20A      `attr:"u20/l0" json:"x,omitempty"`
	F8 []time.Time `attr:"u20/v0,value=u20/e0,ignoreempty" json:"x,omitempty"`
}

type U20D struct {
	F0 uint64      `attr:"sys/db/id" json:"x,omitempty"`
	F1 *bool       `attr:"u20/s4"`
	F2 float64     `attr:"u20/s5,ignoreempty" json:"x,omitempty"`
	F3 *U20A       `attr:"u20/r0"`
	F4 []time.Time `attr:"u20/v0,value=u20/e0"`
}

type U21A struct {
	F0 *string        `attr:"u21/s0,identity"`
	F1 *nInt          `attr:"u21/s1"`
	F2 bool           `attr:"u21/s2" json:"x,omitempty"`
	F3 string         `attr:"u21/s3,ignoreempty"`
	F4 U21D           `attr:"u21/r0"`
	F5 *U21D          `attr:"u21/r1"`
	F6 *U21C          `attr:"u21/r2"`
	F7 map[nBool]U21B `attr:"u21/m0,key=u21/s2"`
	F8 []nFloat       `attr:"u21/v0,value=u21/e0"`
}

type U21B struct {
	F0 uint64          `attr:"sys/db/id"`
	F1 *U21D           `attr:"u21/r2"`
	F2 string          `attr:"u21/s0,ignoreempty,identity"`
	F3 map[uint64]U21D `attr:"u21/m0"`
	F4 string          `attr:"u21/s3"`
	F5 nBool           `attr:"u21/s2" json:"x,omitempty"`
	F6 *U21A           `attr:"u21/r1"`
	F7 []float64       `attr:"u21/v0,value=u21/e0"`
}

type U21C struct {
	F0 uint64        `attr:"sys/db/id"`
	F1 nInt          `attr:"u21/s1"`
	F2 bool          `attr:"u21/s2,ignoreempty"`
	F3 nStr          `attr:"u21/s3,ignoreempty"`
	F4 *U21A         `attr:"u21/r0" json:"x,omitempty"`
	F5 *U21D         `attr:"u21/r1"`
	F6 map[bool]U21D `attr:"u21/m0,key=u21/s2"`
	F7 []float64     `attr:"u21/v0,value=u21/e0"`
	X8 []int32       `json:"x"`
}

type U21D struct {
	F0 uint64        `attr:"sys/db/id" json:"x,omitempty"`
	F1 *U21C         `attr:"u21/r2"`
	F2 *U21B         `attr:"u21/r1" json:"x,omitempty"`
	F3 int           `attr:"u21/s1,ignoreempty"`
	F4 map[int]*U21C `attr:"u21/m0,key=u21/s1"`
	F5 bool          `attr:"u21/s2" json:"x,omitempty"`
	F6 string        `attr:"u21/s3" json:"x,omitempty"`
}

type U22A struct {
	F0 uint64 `attr:"sys/db/id"`
	F1 *U22C  `attr:"u22/r1"`
	F2 nBool  `attr:"u22/s2,ignoreempty"`
	F3 *U22A  `attr:"u22/r0"`
	F4 *int   `attr:"u22/s6"`
	F5 string `attr:"u22/s7" json:"x,omitempty"`
	F6 []U22B `attr:"u22/l0" json:"x,omitempty"`
	F7 int    `attr:"u22/s1" json:"x,omitempty"`
}

type U22B struct {
	F0 uint64 `attr:"sys/db/id" json:"x,omitempty"`
	F1 nBool  `attr:"u22/s2"`
	F2 *int   `attr:"u22/s6"`
	F3 U22C   `attr:"u22/r1"`
	F4 string `attr:"u22/s7"`
	F5 nStr   `attr:"u22/s4,identity"`
	X6 *int
	F7 int              `attr:"u22/s1,ignoreempty"`
	F8 map[uint64]*U22B `attr:"u22/m0"`
}

type U22C struct {
	F0  bool           `attr:"u22/s2" json:"x,omitempty"`
	F1  string         `attr:"u22/s7"`
	F2  *U22C          `attr:"u22/r1"`
	F3  *int           `attr:"u22/s6"`
	F4  string         `attr:"u22/s0"`
	F5  *U22C          `attr:"u22/r2" json:"x,omitempty"`
	F6  float64        `attr:"u22/s5,identity" json:"x,omitempty"`
	F7  string         `attr:"u22/s4,identity" json:"x,omitempty"`
	F8  int            `attr:"u22/s1,ignoreempty"`
	F9  map[bool]*U22B `attr:"u22/m0,key=u22/s2"`
	F10 *U22A          `attr:"u22/r0" json:"x,omitempty"`
	F11 time.Time      `attr:"u22/s3" json:"x,omitempty"`
}

type U22D struct {
	F0  *string         `attr:"u22/s0,identity"`
	F1  *int            `attr:"u22/s1" json:"x,omitempty"`
	F2  time.Time       `attr:"u22/s3,ignoreempty" json:"x,omitempty"`
	F3  uint64          `attr:"sys/db/id" json:"x,omitempty"`
	F4  nStr            `attr:"u22/s4,identity,ignoreempty"`
	F5  float64         `attr:"u22/s5,identity,ignoreempty"`
	F6  *U22A           `attr:"u22/r0"`
	F7  *U22B           `attr:"u22/r1"`
	F8  *U22D           `attr:"u22/r2" json:"x,omitempty"`
	F9  map[uint64]U22D `attr:"u22/m0" json:"x,omitempty"`
	X10 any             `json:"x"`
}

type U23A struct {
	F0 []bool          `attr:"u23/v0,value=u23/e0"`
	F1 time.Time       `attr:"u23/s2" json:"x,omitempty"`
	F2 []bool          `attr:"u23/v1,value=u23/e1" json:"x,omitempty"`
	F3 float64         `attr:"u23/s4,ignoreempty"`
	F4 map[string]U23A `attr:"u23/m0,key=u23/s0"`
	F5 string          `attr:"u23/s0,identity" json:"x,omitempty"`
	F6 map[string]U23A `attr:"u23/m1,key=u23/s0" json:"x,omitempty"`
}

type U23B struct {
	F0  uint64            `attr:"sys/db/id"`
	F1  *U23C             `attr:"u23/r1" json:"x,omitempty"`
	F2  *U23A             `attr:"u23/r0"`
	F3  *int              `attr:"u23/s1,unique"`
	F4  []bool            `attr:"u23/v1,value=u23/e1"`
	F5  string            `attr:"u23/s0,identity,ignoreempty"`
	F6  *U23C             `attr:"u23/r2"`
	F7  []bool            `attr:"u23/v0,value=u23/e0"`
	F8  map[float64]*U23C `attr:"u23/m0,key=u23/s4" json:"x,omitempty"`
	F9  *time.Time        `attr:"u23/s2" json:"x,omitempty"`
	F10 []U23D            `attr:"u23/l1"`
	F11 map[float64]*U23D `attr:"u23/m1,key=u23/s4"`
}

type U23C struct {
	F0  uint64            `attr:"sys/db/id" json:"x,omitempty"`
	F1  []U23D            `attr:"u23/l1"`
	F2  float64           `attr:"u23/s4"`
	F3  map[uint64]U23C   `attr:"u23/m0"`
	F4  nInt              `attr:"u23/s1,unique"`
	F5  string            `attr:"u23/s0,identity,ignoreempty" json:"x,omitempty"`
	F6  *U23A             `attr:"u23/r0"`
	F7  []bool            `attr:"u23/v1,ignoreempty,value=u23/e1"`
	F8  map[float64]*U23C `attr:"u23/m1,key=u23/s4"`
	F9  time.Time         `attr:"u23/s2,ignoreempty" json:"x,omitempty"`
	F10 []U23A            `attr:"u23/l0"`
}

type U23D struct {
	F0 string          `attr:"u23/s0,identity,ignoreempty"`
	F1 map[string]U23A `attr:"u23/m1,key=u23/s0"`
	F2 *U23D           `attr:"u23/r0"`
	X3 *int            `json:"x"`
	F4 time.Time       `attr:"u23/s2"`
	F5 nFloat          `attr:"u23/s4"`
	F6 uint64          `attr:"sys/db/id" json:"x,omitempty"`
	F7 []nBool         `attr:"u23/v1,value=u23/e1"`
	F8 *nStr           `attr:"u23/s3" json:"x,omitempty"`
	F9 int             `attr:"u23/s1"`
}

type U24A struct {
	F0 *U24D   `attr:"u24/r1" json:"x,omitempty"`
	F1 *int    `attr:"u24/s3"`
	F2 *U24C   `attr:"u24/r0"`
	F3 []U24A  `attr:"u24/l0" json:"x,omitempty"`
	F4 *U24C   `attr:"u24/r2" json:"x,omitempty"`
	F5 *int    `attr:"u24/s2,identity" json:"x,omitempty"`
	F6 *string `attr:"u24/s5"`
	F7 *nFloat `attr:"u24/s4" json:"x,omitempty"`
	F8 int     `attr:"u24/s1" json:"x,omitempty"`
}

type U24B struct {
	F0 string           `attr:"u24/s0,identity"`
	F1 int              `attr:"u24/s1,ignoreempty"`
	F2 int              `attr:"u24/s2,identity"`
	F3 int              `attr:"u24/s3"`
	F4 float64          `attr:"u24/s4"`
	F5 uint64           `attr:"sys/db/id"`
	F6 *nStr            `attr:"u24/s5"`
	F7 *U24B            `attr:"u24/r1" json:"x,omitempty"`
	F8 []U24C           `attr:"u24/l0"`
	F9 map[string]*U24C `attr:"u24/m0,key=u24/s5" json:"x,omitempty"`
}

type U24C struct {
	F0 string `attr:"u24/s5"`
	F1 string `attr:"u24/s0,identity"`
	F2 nInt   `attr:"u24/s1,ignoreempty" json:"x,omitempty"`
	F3 int    `attr:"u24/s3,ignoreempty"`
	F4 int    `attr:"u24/s2,ignoreempty,identity"`
	X5 string `json:"x"`
	F6 *U24A  `attr:"u24/r2" json:"x,omitempty"`
}

type U24D struct {
	F0 *string `attr:"u24/s0,identity" json:"x,omitempty"`
	F1 int     `attr:"u24/s2,identity" json:"x,omitempty"`
	F2 nInt    `attr:"u24/s3,ignoreempty"`
	F3 *U24B   `attr:"u24/r1"`
}

type U25A struct {
	F0 *U25B          `attr:"u25/r0"`
	F1 *string        `attr:"u25/s0,identity"`
	F2 *U25B          `attr:"u25/r1"`
	F3 float64        `attr:"u25/s7,ignoreempty"`
	F4 *nBool         `attr:"u25/s5"`
	F5 int            `attr:"u25/s1,ignoreempty" json:"x,omitempty"`
	F6 bool           `attr:"u25/s4"`
	F7 bool           `attr:"u25/s6"`
	F8 map[bool]*U25A `attr:"u25/m0,key=u25/s6" json:"x,omitempty"`
	F9 []U25C         `attr:"u25/l0" json:"x,omitempty"`
}

type U25B struct {
	F0  uint64   `attr:"sys/db/id" json:"x,omitempty"`
	F1  nInt     `attr:"u25/s1"`
	X2  chan int `json:"x"`
	F3  string   `attr:"u25/s0,identity"`
	F4  *U25A    `attr:"u25/r1"`
	F5  float64  `attr:"u25/s7"`
	F6  *U25C    `attr:"u25/r2"`
	F7  U25D     `attr:"u25/r0" json:"x,omitempty"`
	F8  []U25D   `attr:"u25/l0"`
	F9  nStr     `attr:"u25/s2"`
	F10 *bool    `attr:"u25/s6"`
}

type U25C struct {
	F0  uint64   `attr:"sys/db/id" json:"x,omitempty"`
	F1  *string  `attr:"u25/s0,identity"`
	F2  string   `attr:"u25/s2"`
	F3  bool     `attr:"u25/s5"`
	F4  bool     `attr:"u25/s6"`
	F5  *float64 `attr:"u25/s7" json:"x,omitempty"`
	F6  U25D     `attr:"u25/r0"`
	F7  *U25B    `attr:"u25/r2"`
	F8  []U25B   `attr:"u25/l0"`
	X9  func()   `json:"x"`
	F10 *string  `attr:"u25/s2" json:"x,omitempty"`
}

type U25D struct {
	F0 string         `attr:"u25/s0,ignoreempty,identity"`
	F1 string         `attr:"u25/s2" json:"x,omitempty"`
	F2 nInt           `attr:"u25/s3" json:"x,omitempty"`
	F3 bool           `attr:"u25/s4"`
	F4 bool           `attr:"u25/s5"`
	F5 float64        `attr:"u25/s7"`
	F6 *U25B          `attr:"u25/r0"`
	F7 *U25B          `attr:"u25/r2"`
	F8 map[nBool]U25A `attr:"u25/m0,key=u25/s6"`
}

type U26A struct {
	F0 int              `attr:"u26/s3,ignoreempty" json:"x,omitempty"`
	F1 *int             `attr:"u26/s1" json:"x,omitempty"`
	F2 map[float64]U26B `attr:"u26/m1,key=u26/s5"`
	F3 U26D             `attr:"u26/r1" json:"x,omitempty"`
	F4 *U26D            `attr:"u26/r0" json:"x,omitempty"`
	F5 []U26B           `attr:"u26/l0"`
	F6 nStr             `attr:"u26/s0" json:"x,omitempty"`
	F7 time.Time        `attr:"u26/s4"`
	F8 nBool            `attr:"u26/s2,ignoreempty"`
	F9 time.Time        `attr:"u26/s6"`
}

type U26B struct {
	F0 uint64         `attr:"sys/db/id" json:"x,omitempty"`
	F1 int            `attr:"u26/s1" json:"x,omitempty"`
	F2 nFloat         `attr:"u26/s5"`
	F3 time.Time      `attr:"u26/s6,ignoreempty" json:"x,omitempty"`
	F4 U26D           `attr:"u26/r0" json:"x,omitempty"`
	F5 *U26B          `attr:"u26/r1" json:"x,omitempty"`
	F6 U26D           `attr:"u26/r2"`
	F7 []U26B         `attr:"u26/l0"`
	F8 map[bool]*U26D `attr:"u26/m1,key=u26/s2"`
}

type U26C struct {
	F0  uint64           `attr:"sys/db/id"`
	F1  string           `attr:"u26/s0" json:"x,omitempty"`
	F2  *int             `attr:"u26/s1"`
	F3  bool             `attr:"u26/s2" json:"x,omitempty"`
	F4  *int             `attr:"u26/s3"`
	F5  float64          `attr:"u26/s5" json:"x,omitempty"`
	F6  *time.Time       `attr:"u26/s6"`
	F7  *U26C            `attr:"u26/r0"`
	F8  U26D             `attr:"u26/r2"`
	F9  []U26B           `attr:"u26/l0"`
	F10 map[float64]U26C `attr:"u26/m0,key=u26/s5"`
	F11 map[bool]*U26D   `attr:"u26/m1,key=u26/s2" json:"x,omitempty"`
}

type U26D struct {
	F0 *string         `attr:"u26/s0"`
	F1 *int            `attr:"u26/s1" json:"x,omitempty"`
	F2 bool            `attr:"u26/s2" json:"x,omitempty"`
	F3 int             `attr:"u26/s3"`
	F4 *time.Time      `attr:"u26/s4" json:"x,omitempty"`
	F5 *float64        `attr:"u26/s5" json:"x,omitempty"`
	F6 time.Time       `attr:"u26/s6"`
	F7 *U26B           `attr:"u26/r0" json:"x,omitempty"`
	F8 *U26D           `attr:"u26/r1" json:"x,omitempty"`
	F9 map[string]U26A `attr:"u26/m1,key=u26/s0"`
}

type U27A struct {
	F0 uint64 `attr:"sys/db/id"`
	F1 U27B   `attr:"u27/r0"`
	F2 U27C   `attr:"u27/r1" json:"x,omitempty"`
	F3 *U27C  `attr:"u27/r2"`
	F4 []U27A `attr:"u27/l0"`
	F5 []U27C `attr:"u27/l1"`
	F6 []int  `attr:"u27/v1,value=u27/e1"`
}

type U27B struct {
	F0 int     `attr:"u27/s1"`
	F1 *string `attr:"u27/s2,unique" json:"x,omitempty"`
	F2 bool    `attr:"u27/s3"`
	F3 *U27D   `attr:"u27/r0"`
	F4 *U27A   `attr:"u27/r1"`
	F5 U27D    `attr:"u27/r2" json:"x,omitempty"`
	F6 []U27D  `attr:"u27/l1" json:"x,omitempty"`
	F7 []nInt  `attr:"u27/v1,value=u27/e1" json:"x,omitempty"`
	X8 any
}

type U27C struct {
	F0  uint64      `attr:"sys/db/id" json:"x,omitempty"`
	F1  string      `attr:"u27/s2,unique,ignoreempty"`
	F2  []U27D      `attr:"u27/l1"`
	F3  []U27B      `attr:"u27/l0"`
	F4  U27D        `attr:"u27/r1"`
	F5  *U27C       `attr:"u27/r2"`
	F6  string      `attr:"u27/s0,identity,ignoreempty"`
	F7  U27D        `attr:"u27/r0" json:"x,omitempty"`
	F8  []time.Time `attr:"u27/v0,value=u27/e0"`
	F9  *string     `attr:"u27/s4" json:"x,omitempty"`
	F10 []nInt      `attr:"u27/v1,value=u27/e1,ignoreempty"`
}

type U27D struct {
	F0 *int          `attr:"u27/s1"`
	F1 *U27C         `attr:"u27/r0" json:"x,omitempty"`
	F2 []int         `attr:"u27/v1,value=u27/e1" json:"x,omitempty"`
	F3 []U27A        `attr:"u27/l0"`
	F4 bool          `attr:"u27/s3"`
	F5 map[nStr]U27D `attr:"u27/m0,key=u27/s4"`
	F6 string        `attr:"u27/s4"`
	X7 *int
}

type U28A struct {
	F0 int      `attr:"u28/s1,unique"`
	F1 *int     `attr:"u28/s2"`
	F2 string   `attr:"u28/s4" json:"x,omitempty"`
	F3 *nFloat  `attr:"u28/s5,identity"`
	F4 nFloat   `attr:"u28/s7,ignoreempty"`
	F5 U28C     `attr:"u28/r0"`
	F6 *U28B    `attr:"u28/r2"`
	F7 []U28D   `attr:"u28/l0"`
	F8 []U28A   `attr:"u28/l1" json:"x,omitempty"`
	F9 []nFloat `attr:"u28/v0,value=u28/e0" json:"x,omitempty"`
}

type U28B struct {
	F0  bool    `attr:"u28/s3"`
	F1  uint64  `attr:"sys/db/id"`
	F2  U28D    `attr:"u28/r0"`
	F3  *string `attr:"u28/s4"`
	F4  float64 `attr:"u28/s7,ignoreempty"`
	F5  nInt    `attr:"u28/s2,ignoreempty"`
	F6  *string `attr:"u28/s0" json:"x,omitempty"`
	X7  chan int
	F8  nInt    `attr:"u28/s6,ignoreempty"`
	F9  int     `attr:"u28/s1,unique"`
	F10 U28C    `attr:"u28/r2"`
	F11 *nFloat `attr:"u28/s5,identity"`
	F12 []U28D  `attr:"u28/l1"`
}

type U28C struct {
	F0 uint64            `attr:"sys/db/id" json:"x,omitempty"`
	F1 map[float64]*U28D `attr:"u28/m0,key=u28/s7"`
	F2 *int              `attr:"u28/s2" json:"x,omitempty"`
	F3 []U28D            `attr:"u28/l1" json:"x,omitempty"`
	F4 bool              `attr:"u28/s3"`
	F5 U28D              `attr:"u28/r1"`
	F6 []float64         `attr:"u28/v0,ignoreempty,value=u28/e0"`
	F7 string            `attr:"u28/s4"`
	F8 *int              `attr:"u28/s1,unique" json:"x,omitempty"`
	F9 U28D              `attr:"u28/r0" json:"x,omitempty"`
}

type U28D struct {
	F0  string  `attr:"u28/s0"`
	F1  *U28D   `attr:"u28/r2"`
	F2  uint64  `attr:"sys/db/id" json:"x,omitempty"`
	F3  float64 `attr:"u28/s5,identity"`
	X4  []int32
	F5  string        `attr:"u28/s4" json:"x,omitempty"`
	F6  *nInt         `attr:"u28/s2"`
	F7  *U28A         `attr:"u28/r1"`
	F8  map[nInt]U28B `attr:"u28/m0,key=u28/s1"`
	F9  float64       `attr:"u28/s7"`
	F10 *U28B         `attr:"u28/r0"`
	F11 bool          `attr:"u28/s3,ignoreempty" json:"x,omitempty"`
}

type U29A struct {
	F0 string        `attr:"u29/s0"`
	F1 map[nInt]U29D `attr:"u29/m0,key=u29/s2" json:"x,omitempty"`
	F2 *U29A         `attr:"u29/r1"`
	F3 *U29C         `attr:"u29/r0"`
	F4 []string      `attr:"u29/v1,ignoreempty,value=u29/e1"`
	F5 *int          `attr:"u29/s5"`
	F6 U29C          `attr:"u29/r2"`
	F7 float64       `attr:"u29/s6"`
	F8 []string      `attr:"u29/v0,value=u29/e0" json:"x,omitempty"`
	F9 *float64      `attr:"u29/s6"`
}

type U29B struct {
	F0 uint64   `attr:"sys/db/id"`
	F1 []U29D   `attr:"u29/l0"`
	F2 []string `attr:"u29/v1,value=u29/e1,ignoreempty"`
	F3 *U29B    `attr:"u29/r2" json:"x,omitempty"`
	F4 string   `attr:"u29/s3,ignoreempty" json:"x,omitempty"`
	F5 *nInt    `attr:"u29/s5"`
	F6 nInt     `attr:"u29/s1,ignoreempty"`
	F7 []string `attr:"u29/v0,value=u29/e0,ignoreempty" json:"x,omitempty"`
	F8 int      `attr:"u29/s2" json:"x,omitempty"`
	F9 *U29A    `attr:"u29/r0" json:"x,omitempty"`
}

type U29C struct {
	F0  *U29D          `attr:"u29/r1"`
	F1  nInt           `attr:"u29/s5" json:"x,omitempty"`
	F2  *float64       `attr:"u29/s6" json:"x,omitempty"`
	F3  *int           `attr:"u29/s1"`
	F4  uint64         `attr:"sys/db/id"`
	F5  []nStr         `attr:"u29/v1,value=u29/e1"`
	F6  *string        `attr:"u29/s0"`
	F7  *U29B          `attr:"u29/r2"`
	F8  *float64       `attr:"u29/s4,identity"`
	F9  *U29A          `attr:"u29/r0"`
	F10 *int           `attr:"u29/s2"`
	X11 map[string]int `json:"x"`
}

type U29D struct {
	F0 int      `attr:"u29/s1"`
	F1 int      `attr:"u29/s2"`
	F2 *int     `attr:"u29/s5"`
	F3 *string  `attr:"u29/s0"`
	F4 *U29C    `attr:"u29/r0"`
	F5 []string `attr:"u29/v0,ignoreempty,value=u29/e0" json:"x,omitempty"`
	X6 *int
	F7 nStr     `attr:"u29/s3,ignoreempty"`
	F8 *float64 `attr:"u29/s6"`
}

type U30A struct {
	F0 U30C          `attr:"u30/r0"`
	F1 string        `attr:"u30/s4" json:"x,omitempty"`
	F2 uint64        `attr:"sys/db/id"`
	F3 U30B          `attr:"u30/r1"`
	F4 []string      `attr:"u30/v0,ignoreempty,value=u30/e0"`
	F5 map[bool]U30A `attr:"u30/m0,key=u30/s2"`
	F6 []U30D        `attr:"u30/l0"`
	F7 bool          `attr:"u30/s2"`
}

type U30B struct {
	F0 *string `attr:"u30/s0,identity"`
	F1 *nBool  `attr:"u30/s2"`
	F2 *string `attr:"u30/s4"`
	F3 U30D    `attr:"u30/r1"`
}

type U30C struct {
	F0 string  `attr:"u30/s0,ignoreempty,identity"`
	F1 *bool   `attr:"u30/s2"`
	F2 *string `attr:"u30/s4"`
	F3 *U30C   `attr:"u30/r1"`
	F4 U30D    `attr:"u30/r2"`
	F5 []nStr  `attr:"u30/v0,value=u30/e0"`
}

type U30D struct {
	F0 *string `attr:"u30/s4" json:"x,omitempty"`
	F1 *U30D   `attr:"u30/r2" json:"x,omitempty"`
	F2 []U30C  `attr:"u30/l0"`
	F3 []nStr  `attr:"u30/v0,value=u30/e0" json:"x,omitempty"`
	F4 uint64  `attr:"sys/db/id" json:"x,omitempty"`
	F5 int     `attr:"u30/s1,ignoreempty"`
	F6 *bool   `attr:"u30/s2"`
	F7 []U30C  `attr:"u30/l1"`
}

type U31A struct {
	F0  *U31A         `attr:"u31/r2" json:"x,omitempty"`
	F1  U31B          `attr:"u31/r0"`
	F2  *U31B         `attr:"u31/r1" json:"x,omitempty"`
	F3  map[nStr]U31D `attr:"u31/m0,key=u31/s0"`
	X4  string        `json:"x"`
	F5  *nInt         `attr:"u31/s1"`
	F6  []U31C        `attr:"u31/l0"`
	F7  time.Time     `attr:"u31/s2,ignoreempty"`
	F8  uint64        `attr:"sys/db/id"`
	F9  []float64     `attr:"u31/v1,value=u31/e0,ignoreempty"`
	F10 bool          `attr:"u31/s3"`
}

type U31B struct {
	F0 uint64 `attr:"sys/db/id" json:"x,omitempty"`
	F1 *U31B  `attr:"u31/r1" json:"x,omitempty"`
	X2 any
	F3 *time.Time `attr:"u31/s2"`
	F4 nBool      `attr:"u31/s3"`
	F5 *U31A      `attr:"u31/r0"`
	F6 []U31B     `attr:"u31/l1"`
}

type U31C struct {
	F0 []float64  `attr:"u31/v0,value=u31/e0" json:"x,omitempty"`
	F1 U31D       `attr:"u31/r0" json:"x,omitempty"`
	F2 []U31A     `attr:"u31/l0"`
	F3 *time.Time `attr:"u31/s2" json:"x,omitempty"`
	F4 []U31B     `attr:"u31/l1" json:"x,omitempty"`
	F5 uint64     `attr:"sys/db/id"`
	F6 *nStr      `attr:"u31/s0"`
}

type U31D struct {
	F0 string    `attr:"u31/s0"`
	F1 []float64 `attr:"u31/v1,value=u31/e0"`
	F2 time.Time `attr:"u31/s2,ignoreempty" json:"x,omitempty"`
	F3 *U31D     `attr:"u31/r0"`
	F4 []U31D    `attr:"u31/l1"`
	F5 []nFloat  `attr:"u31/v0,value=u31/e0"`
	F6 *U31A     `attr:"u31/r2" json:"x,omitempty"`
}

var universes = []universe{
	{"flat", []*typeDesc{
		describe[U0A]("U0A", "", []fieldDesc{
			{0, "u0/s0", "scalar", "str", "identity", false, "", ""},
			{1, "u0/s1", "scalar", "int", "identity", false, "", ""},
			{2, "u0/s2", "scalar", "int", "", true, "", ""},
			{3, "u0/s5", "scalar", "int", "", false, "", ""},
			{4, "u0/s6", "scalar", "float", "", false, "", ""},
			{5, "u0/s7", "scalar", "float", "", true, "", ""},
			{6, "u0/s8", "pscalar", "str", "", false, "", ""},
		}),
		describe[U0B]("U0B", "", []fieldDesc{
			{0, "u0/s3", "scalar", "int", "", false, "", ""},
			{1, "u0/s6", "pscalar", "float", "", false, "", ""},
			{2, "u0/s0", "scalar", "str", "identity", true, "", ""},
			{3, "u0/s2", "scalar", "int", "", false, "", ""},
			{4, "u0/s1", "scalar", "int", "identity", false, "", ""},
			{5, "u0/s4", "pscalar", "float", "", false, "", ""},
		}),
		describe[U0C]("U0C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u0/s1", "scalar", "int", "identity", false, "", ""},
			{2, "u0/s2", "pscalar", "int", "", false, "", ""},
			{3, "u0/s3", "pscalar", "int", "", false, "", ""},
			{4, "u0/s6", "pscalar", "float", "", false, "", ""},
			{5, "u0/s8", "scalar", "str", "", false, "", ""},
		}),
		describe[U0D]("U0D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u0/s0", "pscalar", "str", "", false, "", ""},
			{2, "u0/s1", "scalar", "int", "identity", false, "", ""},
			{3, "u0/s2", "pscalar", "int", "", false, "", ""},
			{4, "u0/s3", "pscalar", "int", "", false, "", ""},
			{5, "u0/s4", "scalar", "float", "", false, "", ""},
			{6, "u0/s6", "scalar", "float", "", false, "", ""},
			{7, "u0/s8", "scalar", "str", "", true, "", ""},
		}),
	}},
	{"flat", []*typeDesc{
		describe[U1A]("U1A", "", []fieldDesc{
			{0, "u1/s1", "pscalar", "int", "unique", false, "", ""},
			{1, "u1/s4", "scalar", "inst", "", false, "", ""},
			{2, "u1/s7", "scalar", "str", "", true, "", ""},
		}),
		describe[U1B]("U1B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u1/s4", "scalar", "inst", "", false, "", ""},
			{2, "u1/s2", "scalar", "bool", "", true, "", ""},
			{3, "u1/s7", "scalar", "str", "", true, "", ""},
			{4, "u1/s5", "scalar", "int", "unique", true, "", ""},
		}),
		describe[U1C]("U1C", "", []fieldDesc{
			{0, "u1/s3", "scalar", "str", "", false, "", ""},
			{1, "u1/s6", "pscalar", "int", "identity", false, "", ""},
			{2, "u1/s4", "scalar", "inst", "", false, "", ""},
			{3, "u1/s7", "scalar", "str", "", true, "", ""},
			{4, "u1/s2", "scalar", "bool", "", true, "", ""},
			{5, "u1/s5", "scalar", "int", "unique", true, "", ""},
			{6, "u1/s4", "pscalar", "inst", "", false, "", ""},
		}),
		describe[U1D]("U1D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u1/s0", "pscalar", "str", "", false, "", ""},
			{2, "u1/s2", "pscalar", "bool", "", false, "", ""},
			{3, "u1/s7", "scalar", "str", "", false, "", ""},
			{4, "u1/s4", "scalar", "inst", "", false, "", ""},
			{5, "u1/s3", "scalar", "str", "identity", false, "", ""},
			{6, "u1/s6", "scalar", "int", "identity", false, "", ""},
			{7, "u1/s1", "scalar", "int", "unique", false, "", ""},
			{8, "u1/s5", "scalar", "int", "unique", false, "", ""},
		}),
	}},
	{"flat", []*typeDesc{
		describe[U2A]("U2A", "", []fieldDesc{
			{0, "u2/s0", "scalar", "str", "", true, "", ""},
			{1, "u2/s2", "scalar", "int", "", false, "", ""},
			{2, "u2/s3", "pscalar", "inst", "", false, "", ""},
			{3, "u2/s5", "pscalar", "bool", "", false, "", ""},
			{4, "u2/s6", "scalar", "float", "", false, "", ""},
		}),
		describe[U2B]("U2B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u2/s0", "pscalar", "str", "", false, "", ""},
			{2, "u2/s1", "pscalar", "int", "", false, "", ""},
			{3, "u2/s3", "scalar", "inst", "", true, "", ""},
			{4, "u2/s4", "pscalar", "bool", "", false, "", ""},
			{5, "u2/s5", "scalar", "bool", "", false, "", ""},
			{6, "u2/s6", "pscalar", "float", "", false, "", ""},
		}),
		describe[U2C]("U2C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u2/s2", "scalar", "int", "", false, "", ""},
			{2, "u2/s3", "pscalar", "inst", "", false, "", ""},
			{3, "u2/s4", "scalar", "bool", "", true, "", ""},
		}),
		describe[U2D]("U2D", "", []fieldDesc{
			{0, "u2/s1", "scalar", "int", "", true, "", ""},
			{1, "u2/s2", "scalar", "int", "", false, "", ""},
			{2, "u2/s4", "scalar", "bool", "", true, "", ""},
			{3, "u2/s5", "scalar", "bool", "", false, "", ""},
			{4, "u2/s6", "pscalar", "float", "", false, "", ""},
		}),
	}},
	{"flat", []*typeDesc{
		describe[U3A]("U3A", "", []fieldDesc{
			{1, "u3/s2", "scalar", "inst", "", true, "", ""},
			{2, "u3/s5", "scalar", "float", "unique", false, "", ""},
			{3, "sys/db/id", "id", "", "", false, "", ""},
			{4, "u3/s4", "scalar", "inst", "", false, "", ""},
			{5, "u3/s3", "scalar", "bool", "", false, "", ""},
		}),
		describe[U3B]("U3B", "", []fieldDesc{
			{0, "u3/s3", "scalar", "bool", "", true, "", ""},
			{1, "u3/s1", "scalar", "int", "identity", false, "", ""},
			{2, "u3/s0", "pscalar", "str", "identity", false, "", ""},
			{3, "u3/s4", "scalar", "inst", "", false, "", ""},
			{4, "u3/s5", "scalar", "float", "unique", false, "", ""},
		}),
		describe[U3C]("U3C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u3/s0", "scalar", "str", "identity", false, "", ""},
			{2, "u3/s1", "scalar", "int", "identity", false, "", ""},
			{3, "u3/s2", "scalar", "inst", "", true, "", ""},
			{4, "u3/s3", "pscalar", "bool", "", false, "", ""},
			{5, "u3/s4", "pscalar", "inst", "", false, "", ""},
			{6, "u3/s5", "scalar", "float", "unique", true, "", ""},
			{7, "u3/s1", "pscalar", "int", "identity", false, "", ""},
		}),
		describe[U3D]("U3D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u3/s1", "pscalar", "int", "", false, "", ""},
			{2, "u3/s3", "pscalar", "bool", "", false, "", ""},
			{3, "u3/s4", "scalar", "inst", "", false, "", ""},
			{4, "u3/s2", "scalar", "inst", "", true, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U4A]("U4A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u4/s1", "scalar", "int", "", false, "", ""},
			{2, "u4/s2", "pscalar", "int", "", false, "", ""},
			{3, "u4/s3", "scalar", "bool", "", false, "", ""},
			{4, "u4/s4", "scalar", "int", "", true, "", ""},
			{5, "u4/s5", "scalar", "str", "identity", false, "", ""},
			{6, "u4/s6", "scalar", "inst", "", false, "", ""},
			{7, "u4/r0", "pstruct", "U4C", "", false, "", ""},
			{8, "u4/r1", "pstruct", "U4B", "", false, "", ""},
			{9, "u4/l0", "list", "U4B", "", false, "", ""},
			{10, "u4/l1", "list", "U4A", "", false, "", ""},
			{11, "u4/v1", "slist", "str", "", true, "", "u4/e1"},
		}),
		describe[U4B]("U4B", "", []fieldDesc{
			{0, "u4/s0", "scalar", "str", "identity", false, "", ""},
			{1, "u4/s6", "scalar", "inst", "", true, "", ""},
			{2, "u4/s3", "pscalar", "bool", "", false, "", ""},
			{3, "u4/r1", "pstruct", "U4B", "", false, "", ""},
			{4, "u4/s2", "pscalar", "int", "", false, "", ""},
			{5, "u4/l1", "list", "U4D", "", false, "", ""},
			{6, "u4/s5", "scalar", "str", "identity", false, "", ""},
			{7, "u4/r0", "pstruct", "U4B", "", false, "", ""},
			{8, "u4/s4", "scalar", "int", "", false, "", ""},
			{9, "u4/s1", "pscalar", "int", "", false, "", ""},
			{10, "u4/v1", "slist", "str", "", true, "", "u4/e1"},
		}),
		describe[U4C]("U4C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u4/s4", "scalar", "int", "", false, "", ""},
			{2, "u4/s2", "scalar", "int", "", true, "", ""},
			{3, "u4/r1", "struct", "U4D", "", false, "", ""},
			{4, "u4/s7", "scalar", "inst", "", false, "", ""},
			{5, "u4/s3", "scalar", "bool", "", false, "", ""},
			{6, "u4/s5", "scalar", "str", "identity", false, "", ""},
			{7, "u4/r0", "pstruct", "U4B", "", false, "", ""},
			{8, "u4/s6", "scalar", "inst", "", false, "", ""},
			{9, "u4/l1", "list", "U4A", "", false, "", ""},
			{10, "u4/v0", "slist", "inst", "", false, "", "u4/e0"},
		}),
		describe[U4D]("U4D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u4/s0", "scalar", "str", "identity", false, "", ""},
			{2, "u4/l1", "list", "U4D", "", false, "", ""},
			{3, "u4/s3", "pscalar", "bool", "", false, "", ""},
			{4, "u4/r0", "pstruct", "U4A", "", false, "", ""},
			{5, "u4/r1", "pstruct", "U4C", "", false, "", ""},
			{6, "u4/s5", "pscalar", "str", "identity", false, "", ""},
			{7, "u4/s1", "scalar", "int", "", false, "", ""},
			{8, "u4/v1", "slist", "str", "", true, "", "u4/e1"},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U5A]("U5A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u5/r0", "pstruct", "U5C", "", false, "", ""},
			{2, "u5/r1", "pstruct", "U5B", "", false, "", ""},
			{3, "u5/s0", "scalar", "str", "", false, "", ""},
			{4, "u5/r2", "struct", "U5B", "", false, "", ""},
			{5, "u5/v0", "slist", "str", "", false, "", "u5/e0"},
			{6, "u5/s3", "scalar", "inst", "unique", false, "", ""},
			{7, "u5/s1", "scalar", "int", "identity", false, "", ""},
			{8, "u5/s2", "scalar", "bool", "", false, "", ""},
			{9, "u5/s0", "pscalar", "str", "", false, "", ""},
		}),
		describe[U5B]("U5B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u5/m0", "map", "U5C", "", false, "sys/db/id", ""},
			{2, "u5/r0", "pstruct", "U5A", "", false, "", ""},
			{3, "u5/s1", "scalar", "int", "identity", false, "", ""},
			{4, "u5/r1", "struct", "U5C", "", false, "", ""},
			{5, "u5/v1", "slist", "str", "", false, "", "u5/e0"},
		}),
		describe[U5C]("U5C", "", []fieldDesc{
			{0, "u5/s0", "scalar", "str", "", false, "", ""},
			{1, "u5/s3", "scalar", "inst", "unique", true, "", ""},
			{2, "u5/r0", "pstruct", "U5C", "", false, "", ""},
			{3, "u5/r1", "struct", "U5D", "", false, "", ""},
			{4, "u5/r2", "pstruct", "U5D", "", false, "", ""},
			{5, "u5/m0", "map", "U5C", "", false, "u5/s0", ""},
			{6, "sys/db/id", "id", "", "", false, "", ""},
			{7, "u5/v0", "slist", "str", "", true, "", "u5/e0"},
		}),
		describe[U5D]("U5D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u5/r0", "pstruct", "U5D", "", false, "", ""},
			{2, "u5/r2", "pstruct", "U5C", "", false, "", ""},
			{3, "u5/m0", "pmap", "U5A", "", false, "sys/db/id", ""},
			{4, "u5/s0", "scalar", "str", "", true, "", ""},
			{5, "u5/s3", "scalar", "inst", "unique", false, "", ""},
			{6, "u5/v1", "slist", "str", "", false, "", "u5/e0"},
			{7, "u5/s2", "pscalar", "bool", "", false, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U6A]("U6A", "", []fieldDesc{
			{0, "u6/v1", "slist", "inst", "", true, "", "u6/e1"},
			{1, "sys/db/id", "id", "", "", false, "", ""},
			{2, "u6/s4", "scalar", "str", "", false, "", ""},
			{3, "u6/s7", "scalar", "float", "", true, "", ""},
			{4, "u6/s1", "scalar", "int", "identity", false, "", ""},
			{5, "u6/r0", "pstruct", "U6C", "", false, "", ""},
			{6, "u6/s3", "scalar", "float", "", false, "", ""},
			{7, "u6/s8", "scalar", "bool", "", false, "", ""},
			{8, "u6/m0", "map", "U6B", "", false, "u6/s8", ""},
		}),
		describe[U6B]("U6B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u6/v1", "slist", "inst", "", false, "", "u6/e1"},
			{2, "u6/s4", "pscalar", "str", "", false, "", ""},
			{3, "u6/s3", "pscalar", "float", "", false, "", ""},
			{4, "u6/s5", "pscalar", "str", "", false, "", ""},
			{5, "u6/s8", "scalar", "bool", "", false, "", ""},
			{6, "u6/s0", "scalar", "str", "identity", false, "", ""},
			{7, "u6/s2", "pscalar", "inst", "", false, "", ""},
			{8, "u6/s6", "scalar", "bool", "", true, "", ""},
			{9, "u6/s7", "pscalar", "float", "", false, "", ""},
			{10, "u6/s1", "scalar", "int", "identity", false, "", ""},
			{11, "u6/r0", "pstruct", "U6D", "", false, "", ""},
		}),
		describe[U6C]("U6C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u6/v0", "slist", "str", "", true, "", "u6/e0"},
			{2, "u6/s5", "pscalar", "str", "", false, "", ""},
			{3, "u6/s7", "scalar", "float", "", false, "", ""},
			{4, "u6/s8", "scalar", "bool", "", false, "", ""},
			{5, "u6/s3", "pscalar", "float", "", false, "", ""},
			{6, "u6/s4", "scalar", "str", "", false, "", ""},
			{7, "u6/m1", "pmap", "U6C", "", false, "u6/s4", ""},
			{8, "u6/m0", "map", "U6A", "", false, "u6/s8", ""},
			{9, "u6/s2", "scalar", "inst", "", true, "", ""},
			{10, "u6/v1", "slist", "inst", "", true, "", "u6/e1"},
		}),
		describe[U6D]("U6D", "", []fieldDesc{
			{0, "u6/m0", "pmap", "U6B", "", false, "sys/db/id", ""},
			{1, "u6/s5", "scalar", "str", "", false, "", ""},
			{2, "u6/s0", "scalar", "str", "identity", false, "", ""},
			{3, "u6/s7", "scalar", "float", "", false, "", ""},
			{4, "u6/s8", "pscalar", "bool", "", false, "", ""},
			{5, "u6/s1", "scalar", "int", "identity", true, "", ""},
			{6, "sys/db/id", "id", "", "", false, "", ""},
			{7, "u6/s3", "scalar", "float", "", true, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U7A]("U7A", "", []fieldDesc{
			{0, "u7/m0", "map", "U7A", "", false, "u7/s0", ""},
			{1, "u7/s1", "scalar", "int", "", false, "", ""},
			{2, "u7/s4", "pscalar", "inst", "", false, "", ""},
			{3, "u7/s3", "scalar", "int", "", true, "", ""},
			{4, "u7/s0", "scalar", "str", "identity", false, "", ""},
			{5, "u7/r1", "pstruct", "U7C", "", false, "", ""},
			{6, "u7/r0", "pstruct", "U7B", "", false, "", ""},
			{7, "u7/s2", "scalar", "str", "", false, "", ""},
		}),
		describe[U7B]("U7B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u7/s0", "scalar", "str", "identity", false, "", ""},
			{2, "u7/r1", "pstruct", "U7D", "", false, "", ""},
			{3, "u7/s4", "scalar", "inst", "", true, "", ""},
			{4, "u7/v1", "slist", "float", "", false, "", "u7/e1"},
			{5, "u7/s2", "scalar", "str", "", true, "", ""},
		}),
		describe[U7C]("U7C", "", []fieldDesc{
			{0, "u7/r0", "pstruct", "U7A", "", false, "", ""},
			{1, "u7/v0", "slist", "inst", "", false, "", "u7/e0"},
			{2, "u7/s4", "pscalar", "inst", "", false, "", ""},
			{3, "u7/s1", "scalar", "int", "", false, "", ""},
			{4, "u7/r1", "pstruct", "U7A", "", false, "", ""},
			{5, "u7/s3", "pscalar", "int", "", false, "", ""},
			{6, "u7/m0", "pmap", "U7C", "", false, "u7/s1", ""},
			{7, "u7/s0", "scalar", "str", "identity", true, "", ""},
		}),
		describe[U7D]("U7D", "", []fieldDesc{
			{0, "u7/r1", "pstruct", "U7D", "", false, "", ""},
			{1, "u7/s3", "scalar", "int", "", false, "", ""},
			{2, "u7/v1", "slist", "float", "", true, "", "u7/e1"},
			{3, "u7/s1", "scalar", "int", "", true, "", ""},
			{4, "u7/m0", "map", "U7D", "", false, "u7/s3", ""},
			{5, "u7/s2", "scalar", "str", "", false, "", ""},
			{6, "u7/s4", "scalar", "inst", "", true, "", ""},
			{7, "u7/s0", "scalar", "str", "identity", true, "", ""},
			{8, "u7/v0", "slist", "inst", "", true, "", "u7/e0"},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U8A]("U8A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u8/s1", "pscalar", "int", "", false, "", ""},
			{2, "u8/s2", "pscalar", "float", "", false, "", ""},
			{3, "u8/s3", "scalar", "int", "unique", false, "", ""},
			{4, "u8/s4", "scalar", "int", "", false, "", ""},
			{5, "u8/s5", "scalar", "str", "unique", false, "", ""},
			{6, "u8/l0", "list", "U8D", "", false, "", ""},
			{7, "u8/m1", "pmap", "U8B", "", false, "sys/db/id", ""},
			{8, "u8/v1", "slist", "bool", "", false, "", "u8/e1"},
		}),
		describe[U8B]("U8B", "", []fieldDesc{
			{0, "u8/s1", "pscalar", "int", "", false, "", ""},
			{1, "u8/s2", "pscalar", "float", "", false, "", ""},
			{2, "u8/s3", "pscalar", "int", "unique", false, "", ""},
			{3, "sys/db/id", "id", "", "", false, "", ""},
			{4, "u8/s5", "pscalar", "str", "unique", false, "", ""},
			{5, "u8/l0", "list", "U8B", "", false, "", ""},
			{6, "u8/m1", "pmap", "U8A", "", false, "u8/s5", ""},
			{7, "u8/v0", "slist", "bool", "", false, "", "u8/e0"},
			{8, "u8/v1", "slist", "bool", "", false, "", "u8/e1"},
		}),
		describe[U8C]("U8C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u8/s0", "pscalar", "str", "identity", false, "", ""},
			{2, "u8/s1", "scalar", "int", "", false, "", ""},
			{3, "u8/s2", "scalar", "float", "", true, "", ""},
			{4, "u8/s3", "pscalar", "int", "unique", false, "", ""},
			{5, "u8/s5", "pscalar", "str", "unique", false, "", ""},
			{6, "u8/r0", "pstruct", "U8A", "", false, "", ""},
			{7, "u8/l0", "list", "U8C", "", false, "", ""},
			{8, "u8/m0", "pmap", "U8A", "", false, "sys/db/id", ""},
			{9, "u8/m1", "pmap", "U8C", "", false, "u8/s1", ""},
		}),
		describe[U8D]("U8D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u8/s4", "scalar", "int", "", false, "", ""},
			{2, "u8/v0", "slist", "bool", "", false, "", "u8/e0"},
			{3, "u8/s0", "scalar", "str", "identity", false, "", ""},
			{4, "u8/s1", "scalar", "int", "", true, "", ""},
			{5, "u8/r0", "pstruct", "U8C", "", false, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U9A]("U9A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u9/s4", "scalar", "float", "", false, "", ""},
			{2, "u9/s0", "scalar", "str", "", true, "", ""},
			{3, "u9/m1", "map", "U9B", "", false, "u9/s1", ""},
			{4, "u9/s6", "pscalar", "int", "unique", false, "", ""},
			{5, "u9/s5", "scalar", "str", "", false, "", ""},
			{6, "u9/r0", "pstruct", "U9B", "", false, "", ""},
			{7, "u9/s3", "scalar", "inst", "", false, "", ""},
			{8, "u9/s5", "pscalar", "str", "", false, "", ""},
		}),
		describe[U9B]("U9B", "", []fieldDesc{
			{0, "u9/s2", "scalar", "int", "", true, "", ""},
			{1, "u9/s4", "scalar", "float", "", false, "", ""},
			{2, "sys/db/id", "id", "", "", false, "", ""},
			{3, "u9/r0", "pstruct", "U9C", "", false, "", ""},
			{4, "u9/s8", "scalar", "float", "", false, "", ""},
			{5, "u9/s1", "scalar", "int", "unique", false, "", ""},
			{6, "u9/s5", "pscalar", "str", "", false, "", ""},
			{7, "u9/s3", "pscalar", "inst", "", false, "", ""},
			{9, "u9/m0", "pmap", "U9C", "", false, "u9/s4", ""},
		}),
		describe[U9C]("U9C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u9/s7", "scalar", "float", "", false, "", ""},
			{2, "u9/s3", "pscalar", "inst", "", false, "", ""},
			{3, "u9/s2", "scalar", "int", "", true, "", ""},
			{4, "u9/s4", "scalar", "float", "", false, "", ""},
			{5, "u9/s8", "scalar", "float", "", false, "", ""},
			{6, "u9/s0", "scalar", "str", "", true, "", ""},
			{7, "u9/m1", "pmap", "U9C", "", false, "u9/s8", ""},
			{8, "u9/r0", "pstruct", "U9C", "", false, "", ""},
		}),
		describe[U9D]("U9D", "", []fieldDesc{
			{0, "u9/s0", "scalar", "str", "", false, "", ""},
			{1, "u9/s2", "pscalar", "int", "", false, "", ""},
			{2, "u9/s3", "scalar", "inst", "", false, "", ""},
			{3, "u9/s4", "pscalar", "float", "", false, "", ""},
			{4, "u9/s5", "scalar", "str", "", false, "", ""},
			{5, "u9/s6", "scalar", "int", "unique", false, "", ""},
			{6, "u9/s7", "scalar", "float", "", false, "", ""},
			{7, "u9/s8", "scalar", "float", "", false, "", ""},
			{8, "u9/m0", "pmap", "U9A", "", false, "u9/s4", ""},
			{9, "u9/m1", "pmap", "U9B", "", false, "u9/s8", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U10A]("U10A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u10/s5", "scalar", "inst", "", true, "", ""},
			{2, "u10/s8", "scalar", "int", "", false, "", ""},
			{3, "u10/s0", "pscalar", "str", "", false, "", ""},
			{4, "u10/s2", "scalar", "float", "unique", false, "", ""},
			{5, "u10/s3", "scalar", "bool", "", false, "", ""},
			{6, "u10/s6", "scalar", "float", "", false, "", ""},
			{7, "u10/r1", "pstruct", "U10D", "", false, "", ""},
			{8, "u10/s4", "scalar", "bool", "", false, "", ""},
			{9, "u10/s1", "scalar", "int", "", false, "", ""},
			{10, "u10/l0", "list", "U10B", "", false, "", ""},
			{11, "u10/s6", "pscalar", "float", "", false, "", ""},
		}),
		describe[U10B]("U10B", "", []fieldDesc{
			{0, "u10/v1", "slist", "bool", "", true, "", "u10/e1"},
			{1, "u10/s8", "scalar", "int", "", false, "", ""},
			{2, "u10/s6", "scalar", "float", "", false, "", ""},
			{3, "u10/s3", "pscalar", "bool", "", false, "", ""},
			{4, "u10/v0", "slist", "bool", "", false, "", "u10/e0"},
			{5, "u10/s5", "scalar", "inst", "", false, "", ""},
			{6, "u10/s1", "scalar", "int", "", true, "", ""},
			{7, "u10/s7", "scalar", "str", "", false, "", ""},
		}),
		describe[U10C]("U10C", "", []fieldDesc{
			{0, "u10/s1", "pscalar", "int", "", false, "", ""},
			{1, "u10/v1", "slist", "bool", "", true, "", "u10/e1"},
			{2, "u10/r1", "struct", "U10D", "", false, "", ""},
			{3, "u10/s0", "scalar", "str", "", false, "", ""},
			{4, "u10/r0", "pstruct", "U10A", "", false, "", ""},
			{5, "u10/s3", "scalar", "bool", "", false, "", ""},
			{6, "u10/s7", "scalar", "str", "", true, "", ""},
			{7, "sys/db/id", "id", "", "", false, "", ""},
			{8, "u10/v0", "slist", "bool", "", false, "", "u10/e0"},
			{9, "u10/s5", "scalar", "inst", "", true, "", ""},
			{10, "u10/s2", "scalar", "float", "unique", false, "", ""},
			{11, "u10/s8", "scalar", "int", "", true, "", ""},
			{12, "u10/s6", "pscalar", "float", "", false, "", ""},
		}),
		describe[U10D]("U10D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u10/s4", "scalar", "bool", "", true, "", ""},
			{2, "u10/s0", "scalar", "str", "", false, "", ""},
			{3, "u10/s3", "scalar", "bool", "", false, "", ""},
			{4, "u10/s2", "scalar", "float", "unique", false, "", ""},
			{5, "u10/s6", "scalar", "float", "", false, "", ""},
			{6, "u10/r1", "pstruct", "U10B", "", false, "", ""},
			{7, "u10/s1", "pscalar", "int", "", false, "", ""},
			{9, "u10/s6", "pscalar", "float", "", false, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U11A]("U11A", "", []fieldDesc{
			{0, "u11/v1", "slist", "str", "", true, "", "u11/e1"},
			{1, "u11/m0", "pmap", "U11C", "", false, "u11/s0", ""},
			{2, "u11/s2", "scalar", "inst", "", false, "", ""},
			{3, "u11/s3", "pscalar", "inst", "", false, "", ""},
			{4, "u11/s0", "scalar", "str", "identity", true, "", ""},
			{5, "sys/db/id", "id", "", "", false, "", ""},
			{6, "u11/r0", "struct", "U11C", "", false, "", ""},
			{7, "u11/v0", "slist", "float", "", true, "", "u11/e0"},
			{8, "u11/s1", "scalar", "int", "", false, "", ""},
			{9, "u11/s0", "pscalar", "str", "identity", false, "", ""},
		}),
		describe[U11B]("U11B", "", []fieldDesc{
			{0, "u11/s1", "pscalar", "int", "", false, "", ""},
			{1, "u11/s2", "scalar", "inst", "", true, "", ""},
			{2, "u11/s3", "scalar", "inst", "", false, "", ""},
			{3, "u11/s5", "scalar", "inst", "", false, "", ""},
			{4, "u11/r0", "pstruct", "U11C", "", false, "", ""},
			{5, "u11/m0", "pmap", "U11D", "", false, "sys/db/id", ""},
			{6, "u11/v0", "slist", "float", "", true, "", "u11/e0"},
			{7, "u11/s3", "pscalar", "inst", "", false, "", ""},
		}),
		describe[U11C]("U11C", "", []fieldDesc{
			{0, "u11/s4", "scalar", "int", "", false, "", ""},
			{1, "u11/v1", "slist", "str", "", true, "", "u11/e1"},
			{2, "u11/v0", "slist", "float", "", false, "", "u11/e0"},
			{3, "u11/s0", "scalar", "str", "identity", false, "", ""},
			{4, "u11/s5", "scalar", "inst", "", false, "", ""},
			{6, "u11/s1", "scalar", "int", "", false, "", ""},
			{7, "u11/r0", "pstruct", "U11B", "", false, "", ""},
		}),
		describe[U11D]("U11D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u11/s0", "pscalar", "str", "identity", false, "", ""},
			{2, "u11/s2", "scalar", "inst", "", false, "", ""},
			{3, "u11/s3", "scalar", "inst", "", false, "", ""},
			{4, "u11/r0", "pstruct", "U11C", "", false, "", ""},
			{5, "u11/v0", "slist", "float", "", false, "", "u11/e0"},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U12A]("U12A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u12/s0", "pscalar", "str", "", false, "", ""},
			{2, "u12/s2", "scalar", "float", "", true, "", ""},
			{3, "u12/s4", "scalar", "int", "", false, "", ""},
			{4, "u12/r1", "struct", "U12D", "", false, "", ""},
			{5, "u12/l0", "list", "U12C", "", false, "", ""},
		}),
		describe[U12B]("U12B", "", []fieldDesc{
			{0, "u12/s0", "scalar", "str", "", false, "", ""},
			{1, "u12/s1", "pscalar", "int", "", false, "", ""},
			{2, "u12/s2", "scalar", "float", "", true, "", ""},
			{3, "u12/s3", "scalar", "float", "", false, "", ""},
			{4, "sys/db/id", "id", "", "", false, "", ""},
			{5, "u12/s4", "scalar", "int", "", true, "", ""},
			{6, "u12/r0", "pstruct", "U12B", "", false, "", ""},
			{7, "u12/l0", "list", "U12B", "", false, "", ""},
			{8, "u12/m0", "map", "U12A", "", false, "u12/s4", ""},
			{9, "u12/v0", "slist", "int", "", false, "", "u12/e0"},
			{10, "u12/v1", "slist", "float", "", false, "", "u12/e1"},
		}),
		describe[U12C]("U12C", "", []fieldDesc{
			{0, "u12/s0", "pscalar", "str", "", false, "", ""},
			{1, "u12/l0", "list", "U12C", "", false, "", ""},
			{2, "u12/s4", "scalar", "int", "", false, "", ""},
			{3, "u12/r0", "struct", "U12D", "", false, "", ""},
			{4, "u12/v1", "slist", "float", "", true, "", "u12/e1"},
			{5, "sys/db/id", "id", "", "", false, "", ""},
			{6, "u12/v0", "slist", "int", "", false, "", "u12/e0"},
			{7, "u12/m0", "map", "U12A", "", false, "u12/s4", ""},
			{8, "u12/s1", "scalar", "int", "", false, "", ""},
		}),
		describe[U12D]("U12D", "", []fieldDesc{
			{0, "u12/s0", "scalar", "str", "", false, "", ""},
			{1, "u12/s1", "pscalar", "int", "", false, "", ""},
			{2, "u12/s2", "pscalar", "float", "", false, "", ""},
			{3, "u12/s3", "pscalar", "float", "", false, "", ""},
			{4, "u12/r0", "pstruct", "U12D", "", false, "", ""},
			{5, "u12/l0", "list", "U12B", "", false, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U13A]("U13A", "", []fieldDesc{
			{0, "u13/s4", "scalar", "str", "identity", true, "", ""},
			{1, "u13/r1", "struct", "U13D", "", false, "", ""},
			{2, "u13/s6", "pscalar", "bool", "", false, "", ""},
			{3, "sys/db/id", "id", "", "", false, "", ""},
			{4, "u13/s0", "scalar", "str", "identity", false, "", ""},
			{5, "u13/r0", "pstruct", "U13D", "", false, "", ""},
			{6, "u13/s2", "scalar", "str", "", false, "", ""},
			{7, "u13/s3", "pscalar", "int", "", false, "", ""},
			{8, "u13/s1", "scalar", "int", "", true, "", ""},
			{9, "u13/s0", "pscalar", "str", "identity", false, "", ""},
		}),
		describe[U13B]("U13B", "", []fieldDesc{
			{0, "u13/s1", "scalar", "int", "", true, "", ""},
			{1, "u13/s2", "scalar", "str", "", false, "", ""},
			{2, "u13/s4", "scalar", "str", "identity", false, "", ""},
			{3, "u13/s5", "pscalar", "float", "identity", false, "", ""},
			{4, "u13/s6", "scalar", "bool", "", false, "", ""},
			{5, "u13/r1", "pstruct", "U13A", "", false, "", ""},
			{6, "u13/l0", "list", "U13B", "", false, "", ""},
			{7, "u13/v0", "slist", "inst", "", true, "", "u13/e0"},
		}),
		describe[U13C]("U13C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u13/s6", "pscalar", "bool", "", false, "", ""},
			{2, "u13/s2", "scalar", "str", "", true, "", ""},
			{3, "u13/r1", "struct", "U13D", "", false, "", ""},
			{4, "u13/s4", "pscalar", "str", "identity", false, "", ""},
			{5, "u13/s1", "scalar", "int", "", false, "", ""},
			{6, "u13/s5", "scalar", "float", "identity", true, "", ""},
			{7, "u13/s0", "pscalar", "str", "identity", false, "", ""},
		}),
		describe[U13D]("U13D", "", []fieldDesc{
			{0, "u13/s0", "pscalar", "str", "identity", false, "", ""},
			{1, "u13/s3", "pscalar", "int", "", false, "", ""},
			{2, "u13/s4", "scalar", "str", "", false, "", ""},
			{3, "u13/r0", "pstruct", "U13A", "", false, "", ""},
			{4, "u13/v0", "slist", "inst", "", true, "", "u13/e0"},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U14A]("U14A", "", []fieldDesc{
			{0, "u14/s3", "scalar", "bool", "", false, "", ""},
			{1, "u14/s0", "scalar", "str", "identity", false, "", ""},
			{2, "u14/l1", "list", "U14B", "", false, "", ""},
			{3, "u14/r2", "struct", "U14B", "", false, "", ""},
			{4, "u14/s6", "scalar", "float", "unique", false, "", ""},
			{5, "u14/s4", "scalar", "str", "", false, "", ""},
			{6, "u14/m0", "map", "U14C", "", false, "u14/s4", ""},
			{7, "u14/s1", "scalar", "int", "", false, "", ""},
			{8, "u14/v1", "slist", "int", "", false, "", "u14/e1"},
			{9, "u14/s2", "scalar", "int", "", false, "", ""},
			{10, "u14/r1", "pstruct", "U14A", "", false, "", ""},
		}),
		describe[U14B]("U14B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u14/r2", "pstruct", "U14B", "", false, "", ""},
			{2, "u14/s0", "pscalar", "str", "identity", false, "", ""},
			{3, "u14/s6", "scalar", "float", "unique", false, "", ""},
			{4, "u14/r1", "pstruct", "U14C", "", false, "", ""},
			{5, "u14/r0", "struct", "U14D", "", false, "", ""},
			{6, "u14/v0", "slist", "bool", "", false, "", "u14/e0"},
			{7, "u14/s5", "scalar", "inst", "", false, "", ""},
			{8, "u14/s2", "scalar", "int", "", true, "", ""},
		}),
		describe[U14C]("U14C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u14/s4", "scalar", "str", "", false, "", ""},
			{2, "u14/s3", "scalar", "bool", "", false, "", ""},
			{3, "u14/r1", "struct", "U14D", "", false, "", ""},
			{4, "u14/m0", "pmap", "U14D", "", false, "u14/s0", ""},
			{5, "u14/l1", "list", "U14B", "", false, "", ""},
			{6, "u14/r2", "struct", "U14D", "", false, "", ""},
			{7, "u14/v1", "slist", "int", "", false, "", "u14/e1"},
			{8, "u14/s0", "pscalar", "str", "identity", false, "", ""},
			{9, "u14/s6", "pscalar", "float", "unique", false, "", ""},
			{10, "u14/v0", "slist", "bool", "", true, "", "u14/e0"},
			{11, "u14/s5", "pscalar", "inst", "", false, "", ""},
		}),
		describe[U14D]("U14D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u14/l1", "list", "U14A", "", false, "", ""},
			{2, "u14/s1", "pscalar", "int", "", false, "", ""},
			{3, "u14/l0", "list", "U14A", "", false, "", ""},
			{4, "u14/v1", "slist", "int", "", false, "", "u14/e1"},
			{5, "u14/r1", "pstruct", "U14B", "", false, "", ""},
			{6, "u14/s0", "scalar", "str", "identity", false, "", ""},
			{7, "u14/s5", "pscalar", "inst", "", false, "", ""},
			{8, "u14/r0", "pstruct", "U14B", "", false, "", ""},
			{9, "u14/m0", "map", "U14A", "", false, "u14/s1", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U15A]("U15A", "", []fieldDesc{
			{0, "u15/s4", "scalar", "inst", "identity", false, "", ""},
			{1, "u15/m0", "pmap", "U15B", "", false, "u15/s1", ""},
			{2, "u15/r1", "pstruct", "U15B", "", false, "", ""},
			{4, "u15/s7", "scalar", "bool", "", false, "", ""},
			{5, "u15/s0", "scalar", "str", "identity", true, "", ""},
			{6, "u15/r0", "struct", "U15B", "", false, "", ""},
		}),
		describe[U15B]("U15B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u15/m0", "map", "U15B", "", false, "u15/s2", ""},
			{2, "u15/m1", "pmap", "U15A", "", false, "u15/s7", ""},
			{3, "u15/r0", "pstruct", "U15C", "", false, "", ""},
			{4, "u15/s0", "scalar", "str", "identity", false, "", ""},
			{5, "u15/s3", "pscalar", "inst", "", false, "", ""},
			{6, "u15/s2", "scalar", "int", "", false, "", ""},
			{7, "u15/l0", "list", "U15C", "", false, "", ""},
			{8, "u15/v1", "slist", "float", "", false, "", "u15/e1"},
			{9, "u15/v0", "slist", "int", "", true, "", "u15/e0"},
			{10, "u15/s1", "scalar", "int", "", false, "", ""},
		}),
		describe[U15C]("U15C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u15/s1", "scalar", "int", "", true, "", ""},
			{2, "u15/l0", "list", "U15D", "", false, "", ""},
			{3, "u15/s5", "pscalar", "inst", "identity", false, "", ""},
			{4, "u15/r0", "pstruct", "U15D", "", false, "", ""},
			{5, "u15/v1", "slist", "float", "", true, "", "u15/e1"},
			{6, "u15/s2", "scalar", "int", "", false, "", ""},
			{7, "u15/s0", "pscalar", "str", "identity", false, "", ""},
			{8, "u15/m0", "pmap", "U15C", "", false, "u15/s2", ""},
			{9, "u15/s7", "scalar", "bool", "", true, "", ""},
			{10, "u15/s8", "pscalar", "bool", "", false, "", ""},
			{11, "u15/v0", "slist", "int", "", false, "", "u15/e0"},
			{12, "u15/r1", "struct", "U15D", "", false, "", ""},
			{13, "u15/s3", "pscalar", "inst", "", false, "", ""},
			{14, "u15/s4", "scalar", "inst", "identity", false, "", ""},
			{15, "u15/m1", "pmap", "U15B", "", false, "u15/s0", ""},
		}),
		describe[U15D]("U15D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u15/s4", "scalar", "inst", "identity", false, "", ""},
			{2, "u15/s2", "scalar", "int", "", false, "", ""},
			{3, "u15/s0", "scalar", "str", "identity", true, "", ""},
			{4, "u15/m0", "map", "U15C", "", false, "u15/s2", ""},
			{5, "u15/s5", "scalar", "inst", "identity", false, "", ""},
			{6, "u15/v1", "slist", "float", "", false, "", "u15/e1"},
			{7, "u15/s1", "scalar", "int", "", true, "", ""},
			{8, "u15/s3", "scalar", "inst", "", false, "", ""},
			{9, "u15/s6", "scalar", "inst", "unique", false, "", ""},
			{10, "u15/m1", "map", "U15D", "", false, "u15/s2", ""},
			{11, "u15/r0", "pstruct", "U15D", "", false, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U16A]("U16A", "", []fieldDesc{
			{0, "u16/s0", "scalar", "str", "", true, "", ""},
			{1, "u16/s1", "scalar", "int", "", false, "", ""},
			{2, "u16/s2", "pscalar", "int", "identity", false, "", ""},
			{3, "u16/s4", "scalar", "int", "identity", true, "", ""},
			{4, "u16/r1", "pstruct", "U16A", "", false, "", ""},
			{5, "u16/v0", "slist", "float", "", false, "", "u16/e0"},
			{6, "sys/db/id", "id", "", "", false, "", ""},
		}),
		describe[U16B]("U16B", "", []fieldDesc{
			{1, "u16/r0", "pstruct", "U16D", "", false, "", ""},
			{2, "u16/s3", "pscalar", "int", "", false, "", ""},
			{3, "u16/s1", "scalar", "int", "", false, "", ""},
			{4, "u16/s0", "pscalar", "str", "", false, "", ""},
		}),
		describe[U16C]("U16C", "", []fieldDesc{
			{0, "u16/s2", "scalar", "int", "identity", true, "", ""},
			{1, "u16/s0", "pscalar", "str", "", false, "", ""},
			{2, "u16/s1", "scalar", "int", "", false, "", ""},
			{3, "u16/v0", "slist", "float", "", false, "", "u16/e0"},
			{4, "u16/s3", "scalar", "int", "", true, "", ""},
			{6, "u16/s4", "scalar", "int", "identity", true, "", ""},
			{7, "u16/r0", "pstruct", "U16C", "", false, "", ""},
		}),
		describe[U16D]("U16D", "", []fieldDesc{
			{0, "u16/s0", "pscalar", "str", "", false, "", ""},
			{1, "u16/s2", "pscalar", "int", "identity", false, "", ""},
			{2, "u16/s3", "scalar", "int", "", false, "", ""},
			{3, "u16/r0", "pstruct", "U16C", "", false, "", ""},
			{4, "u16/r1", "pstruct", "U16D", "", false, "", ""},
			{5, "u16/v0", "slist", "float", "", false, "", "u16/e0"},
			{6, "sys/db/id", "id", "", "", false, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U17A]("U17A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u17/s5", "scalar", "bool", "", false, "", ""},
			{2, "u17/v1", "slist", "float", "", false, "", "u17/e1"},
			{3, "u17/s2", "scalar", "bool", "", false, "", ""},
			{4, "u17/r0", "pstruct", "U17A", "", false, "", ""},
			{5, "u17/v0", "slist", "inst", "", true, "", "u17/e0"},
			{6, "u17/s3", "scalar", "bool", "", true, "", ""},
			{8, "u17/s0", "scalar", "str", "identity", false, "", ""},
			{9, "u17/s6", "scalar", "float", "", true, "", ""},
		}),
		describe[U17B]("U17B", "", []fieldDesc{
			{0, "u17/s0", "scalar", "str", "identity", false, "", ""},
			{1, "u17/s1", "pscalar", "int", "", false, "", ""},
			{2, "u17/s4", "scalar", "float", "unique", true, "", ""},
			{3, "u17/s5", "scalar", "bool", "", false, "", ""},
			{4, "u17/s8", "scalar", "str", "", false, "", ""},
			{5, "u17/m1", "pmap", "U17B", "", false, "u17/s5", ""},
			{6, "u17/v0", "slist", "inst", "", true, "", "u17/e0"},
		}),
		describe[U17C]("U17C", "", []fieldDesc{
			{0, "u17/v1", "slist", "float", "", false, "", "u17/e1"},
			{1, "u17/s0", "pscalar", "str", "identity", false, "", ""},
			{2, "u17/s7", "pscalar", "inst", "identity", false, "", ""},
			{3, "u17/m0", "map", "U17D", "", false, "u17/s4", ""},
			{4, "u17/s8", "pscalar", "str", "", false, "", ""},
			{5, "sys/db/id", "id", "", "", false, "", ""},
			{6, "u17/s2", "pscalar", "bool", "", false, "", ""},
			{7, "u17/r0", "pstruct", "U17A", "", false, "", ""},
			{8, "u17/s4", "scalar", "float", "unique", false, "", ""},
			{9, "u17/m1", "pmap", "U17A", "", false, "u17/s2", ""},
			{10, "u17/s3", "pscalar", "bool", "", false, "", ""},
			{11, "u17/s5", "pscalar", "bool", "", false, "", ""},
		}),
		describe[U17D]("U17D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u17/s1", "scalar", "int", "", true, "", ""},
			{2, "u17/s2", "scalar", "bool", "", false, "", ""},
			{3, "u17/s3", "scalar", "bool", "", false, "", ""},
			{4, "u17/s4", "scalar", "float", "unique", false, "", ""},
			{5, "u17/s5", "pscalar", "bool", "", false, "", ""},
			{6, "u17/s6", "pscalar", "float", "", false, "", ""},
			{7, "u17/s7", "scalar", "inst", "identity", true, "", ""},
			{8, "u17/r0", "pstruct", "U17A", "", false, "", ""},
			{9, "u17/m0", "pmap", "U17D", "", false, "sys/db/id", ""},
			{10, "u17/m1", "map", "U17A", "", false, "u17/s5", ""},
			{11, "u17/v0", "slist", "inst", "", false, "", "u17/e0"},
			{12, "u17/v1", "slist", "float", "", true, "", "u17/e1"},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U18A]("U18A", "", []fieldDesc{
			{0, "u18/s1", "scalar", "int", "unique", false, "", ""},
			{1, "u18/r0", "pstruct", "U18C", "", false, "", ""},
			{2, "u18/s2", "pscalar", "bool", "", false, "", ""},
			{3, "u18/l1", "list", "U18C", "", false, "", ""},
			{4, "u18/s0", "scalar", "str", "", true, "", ""},
			{5, "u18/s3", "scalar", "str", "", false, "", ""},
			{6, "u18/s4", "scalar", "bool", "", false, "", ""},
			{7, "sys/db/id", "id", "", "", false, "", ""},
			{8, "u18/m1", "map", "U18D", "", false, "u18/s4", ""},
			{9, "u18/v0", "slist", "bool", "", false, "", "u18/e0"},
		}),
		describe[U18B]("U18B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u18/s1", "scalar", "int", "unique", true, "", ""},
			{2, "u18/s4", "scalar", "bool", "", false, "", ""},
			{3, "u18/s3", "scalar", "str", "", true, "", ""},
			{4, "u18/v0", "slist", "bool", "", true, "", "u18/e0"},
			{5, "u18/s0", "pscalar", "str", "", false, "", ""},
			{6, "u18/m1", "map", "U18B", "", false, "u18/s4", ""},
			{7, "u18/l0", "list", "U18A", "", false, "", ""},
			{8, "u18/l1", "list", "U18B", "", false, "", ""},
			{9, "u18/m0", "pmap", "U18D", "", false, "u18/s4", ""},
		}),
		describe[U18C]("U18C", "", []fieldDesc{
			{0, "u18/s0", "scalar", "str", "", false, "", ""},
			{1, "u18/s2", "pscalar", "bool", "", false, "", ""},
			{2, "u18/s4", "scalar", "bool", "", true, "", ""},
			{3, "u18/r0", "struct", "U18D", "", false, "", ""},
			{4, "u18/m0", "pmap", "U18A", "", false, "u18/s3", ""},
			{5, "u18/m1", "pmap", "U18C", "", false, "u18/s0", ""},
		}),
		describe[U18D]("U18D", "", []fieldDesc{
			{0, "u18/v0", "slist", "bool", "", false, "", "u18/e0"},
			{1, "sys/db/id", "id", "", "", false, "", ""},
			{2, "u18/s3", "scalar", "str", "", false, "", ""},
			{3, "u18/l1", "list", "U18C", "", false, "", ""},
			{5, "u18/s4", "scalar", "bool", "", false, "", ""},
			{6, "u18/r0", "pstruct", "U18D", "", false, "", ""},
			{7, "u18/s1", "pscalar", "int", "unique", false, "", ""},
			{8, "u18/s0", "pscalar", "str", "", false, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U19A]("U19A", "", []fieldDesc{
			{0, "u19/s1", "pscalar", "int", "", false, "", ""},
			{1, "u19/m0", "map", "U19B", "", false, "sys/db/id", ""},
			{2, "u19/s4", "scalar", "bool", "", false, "", ""},
			{3, "u19/s6", "scalar", "int", "", true, "", ""},
			{4, "u19/r0", "pstruct", "U19A", "", false, "", ""},
			{5, "u19/s5", "pscalar", "int", "unique", false, "", ""},
			{6, "u19/m1", "pmap", "U19D", "", false, "sys/db/id", ""},
			{7, "u19/l1", "list", "U19C", "", false, "", ""},
			{8, "u19/s0", "scalar", "str", "", false, "", ""},
		}),
		describe[U19B]("U19B", "", []fieldDesc{
			{0, "u19/s1", "scalar", "int", "", false, "", ""},
			{1, "u19/s2", "scalar", "inst", "unique", false, "", ""},
			{2, "u19/v0", "slist", "inst", "", false, "", "u19/e0"},
			{3, "u19/s4", "scalar", "bool", "", false, "", ""},
			{4, "u19/s3", "scalar", "inst", "unique", true, "", ""},
			{5, "u19/m1", "map", "U19D", "", false, "u19/s4", ""},
			{6, "u19/s0", "scalar", "str", "", false, "", ""},
			{7, "u19/m0", "pmap", "U19A", "", false, "u19/s4", ""},
			{8, "sys/db/id", "id", "", "", false, "", ""},
			{9, "u19/l0", "list", "U19D", "", false, "", ""},
		}),
		describe[U19C]("U19C", "", []fieldDesc{
			{0, "u19/s1", "scalar", "int", "", true, "", ""},
			{1, "u19/s2", "scalar", "inst", "unique", false, "", ""},
			{2, "u19/s3", "scalar", "inst", "unique", false, "", ""},
			{3, "u19/s6", "scalar", "int", "", false, "", ""},
			{4, "u19/r0", "struct", "U19D", "", false, "", ""},
			{5, "u19/r1", "pstruct", "U19D", "", false, "", ""},
			{6, "sys/db/id", "id", "", "", false, "", ""},
			{7, "u19/l0", "list", "U19D", "", false, "", ""},
			{8, "u19/l1", "list", "U19B", "", false, "", ""},
			{9, "u19/m0", "map", "U19B", "", false, "u19/s0", ""},
			{10, "u19/m1", "map", "U19C", "", false, "u19/s6", ""},
		}),
		describe[U19D]("U19D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u19/s0", "pscalar", "str", "", false, "", ""},
			{2, "u19/s1", "pscalar", "int", "", false, "", ""},
			{3, "u19/s2", "scalar", "inst", "unique", false, "", ""},
			{4, "u19/s3", "scalar", "inst", "unique", false, "", ""},
			{5, "u19/s4", "scalar", "bool", "", false, "", ""},
			{6, "u19/s5", "scalar", "int", "unique", false, "", ""},
			{7, "u19/s6", "pscalar", "int", "", false, "", ""},
			{8, "u19/r1", "pstruct", "U19A", "", false, "", ""},
			{9, "u19/l0", "list", "U19C", "", false, "", ""},
			{10, "u19/l1", "list", "U19D", "", false, "", ""},
			{11, "u19/m1", "map", "U19D", "", false, "u19/s4", ""},
			{12, "u19/s5", "pscalar", "int", "unique", false, "", ""},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U20A]("U20A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u20/s1", "scalar", "int", "", true, "", ""},
			{2, "u20/s3", "scalar", "inst", "", false, "", ""},
			{3, "u20/s4", "pscalar", "bool", "", false, "", ""},
			{4, "u20/s5", "pscalar", "float", "", false, "", ""},
			{5, "u20/r0", "struct", "U20B", "", false, "", ""},
			{6, "u20/r1", "pstruct", "U20D", "", false, "", ""},
			{7, "u20/v0", "slist", "inst", "", false, "", "u20/e0"},
		}),
		describe[U20B]("U20B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u20/s5", "scalar", "float", "", false, "", ""},
			{2, "u20/s1", "scalar", "int", "", true, "", ""},
			{3, "u20/s3", "scalar", "inst", "", true, "", ""},
			{4, "u20/v0", "slist", "inst", "", false, "", "u20/e0"},
			{5, "u20/s4", "scalar", "bool", "", false, "", ""},
			{6, "u20/r1", "pstruct", "U20D", "", false, "", ""},
			{7, "u20/s2", "scalar", "bool", "", true, "", ""},
		}),
		describe[U20C]("U20C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u20/s0", "pscalar", "str", "identity", false, "", ""},
			{2, "u20/s1", "scalar", "int", "", true, "", ""},
			{3, "u20/s3", "scalar", "inst", "", false, "", ""},
			{4, "u20/s4", "pscalar", "bool", "", false, "", ""},
			{5, "u20/s5", "scalar", "float", "", false, "", ""},
			{6, "u20/r0", "pstruct", "U20D", "", false, "", ""},
			{7, "u20/l0", "list", "U20A", "", false, "", ""},
			{8, "u20/v0", "slist", "inst", "", true, "", "u20/e0"},
		}),
		describe[U20D]("U20D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u20/s4", "pscalar", "bool", "", false, "", ""},
			{2, "u20/s5", "scalar", "float", "", true, "", ""},
			{3, "u20/r0", "pstruct", "U20A", "", false, "", ""},
			{4, "u20/v0", "slist", "inst", "", false, "", "u20/e0"},
		}),
	}},
	{"mixed", []*typeDesc{
		describe[U21A]("U21A", "", []fieldDesc{
			{0, "u21/s0", "pscalar", "str", "identity", false, "", ""},
			{1, "u21/s1", "pscalar", "int", "", false, "", ""},
			{2, "u21/s2", "scalar", "bool", "", false, "", ""},
			{3, "u21/s3", "scalar", "str", "", true, "", ""},
			{4, "u21/r0", "struct", "U21D", "", false, "", ""},
			{5, "u21/r1", "pstruct", "U21D", "", false, "", ""},
			{6, "u21/r2", "pstruct", "U21C", "", false, "", ""},
			{7, "u21/m0", "map", "U21B", "", false, "u21/s2", ""},
			{8, "u21/v0", "slist", "float", "", false, "", "u21/e0"},
		}),
		describe[U21B]("U21B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u21/r2", "pstruct", "U21D", "", false, "", ""},
			{2, "u21/s0", "scalar", "str", "identity", true, "", ""},
			{3, "u21/m0", "map", "U21D", "", false, "sys/db/id", ""},
			{4, "u21/s3", "scalar", "str", "", false, "", ""},
			{5, "u21/s2", "scalar", "bool", "", false, "", ""},
			{6, "u21/r1", "pstruct", "U21A", "", false, "", ""},
			{7, "u21/v0", "slist", "float", "", false, "", "u21/e0"},
		}),
		describe[U21C]("U21C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u21/s1", "scalar", "int", "", false, "", ""},
			{2, "u21/s2", "scalar", "bool", "", true, "", ""},
			{3, "u21/s3", "scalar", "str", "", true, "", ""},
			{4, "u21/r0", "pstruct", "U21A", "", false, "", ""},
			{5, "u21/r1", "pstruct", "U21D", "", false, "", ""},
			{6, "u21/m0", "map", "U21D", "", false, "u21/s2", ""},
			{7, "u21/v0", "slist", "float", "", false, "", "u21/e0"},
		}),
		describe[U21D]("U21D", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u21/r2", "pstruct", "U21C", "", false, "", ""},
			{2, "u21/r1", "pstruct", "U21B", "", false, "", ""},
			{3, "u21/s1", "scalar", "int", "", true, "", ""},
			{4, "u21/m0", "pmap", "U21C", "", false, "u21/s1", ""},
			{5, "u21/s2", "scalar", "bool", "", false, "", ""},
			{6, "u21/s3", "scalar", "str", "", false, "", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U22A]("U22A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u22/r1", "pstruct", "U22C", "", false, "", ""},
			{2, "u22/s2", "scalar", "bool", "", true, "", ""},
			{3, "u22/r0", "pstruct", "U22A", "", false, "", ""},
			{4, "u22/s6", "pscalar", "int", "", false, "", ""},
			{5, "u22/s7", "scalar", "str", "", false, "", ""},
			{6, "u22/l0", "list", "U22B", "", false, "", ""},
			{7, "u22/s1", "scalar", "int", "", false, "", ""},
		}),
		describe[U22B]("U22B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u22/s2", "scalar", "bool", "", false, "", ""},
			{2, "u22/s6", "pscalar", "int", "", false, "", ""},
			{3, "u22/r1", "struct", "U22C", "", false, "", ""},
			{4, "u22/s7", "scalar", "str", "", false, "", ""},
			{5, "u22/s4", "scalar", "str", "identity", false, "", ""},
			{7, "u22/s1", "scalar", "int", "", true, "", ""},
			{8, "u22/m0", "pmap", "U22B", "", false, "sys/db/id", ""},
		}),
		describe[U22C]("U22C", "", []fieldDesc{
			{0, "u22/s2", "scalar", "bool", "", false, "", ""},
			{1, "u22/s7", "scalar", "str", "", false, "", ""},
			{2, "u22/r1", "pstruct", "U22C", "", false, "", ""},
			{3, "u22/s6", "pscalar", "int", "", false, "", ""},
			{4, "u22/s0", "scalar", "str", "", false, "", ""},
			{5, "u22/r2", "pstruct", "U22C", "", false, "", ""},
			{6, "u22/s5", "scalar", "float", "identity", false, "", ""},
			{7, "u22/s4", "scalar", "str", "identity", false, "", ""},
			{8, "u22/s1", "scalar", "int", "", true, "", ""},
			{9, "u22/m0", "pmap", "U22B", "", false, "u22/s2", ""},
			{10, "u22/r0", "pstruct", "U22A", "", false, "", ""},
			{11, "u22/s3", "scalar", "inst", "", false, "", ""},
		}),
		describe[U22D]("U22D", "", []fieldDesc{
			{0, "u22/s0", "pscalar", "str", "identity", false, "", ""},
			{1, "u22/s1", "pscalar", "int", "", false, "", ""},
			{2, "u22/s3", "scalar", "inst", "", true, "", ""},
			{3, "sys/db/id", "id", "", "", false, "", ""},
			{4, "u22/s4", "scalar", "str", "identity", true, "", ""},
			{5, "u22/s5", "scalar", "float", "identity", true, "", ""},
			{6, "u22/r0", "pstruct", "U22A", "", false, "", ""},
			{7, "u22/r1", "pstruct", "U22B", "", false, "", ""},
			{8, "u22/r2", "pstruct", "U22D", "", false, "", ""},
			{9, "u22/m0", "map", "U22D", "", false, "sys/db/id", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U23A]("U23A", "", []fieldDesc{
			{0, "u23/v0", "slist", "bool", "", false, "", "u23/e0"},
			{1, "u23/s2", "scalar", "inst", "", false, "", ""},
			{2, "u23/v1", "slist", "bool", "", false, "", "u23/e1"},
			{3, "u23/s4", "scalar", "float", "", true, "", ""},
			{4, "u23/m0", "map", "U23A", "", false, "u23/s0", ""},
			{5, "u23/s0", "scalar", "str", "identity", false, "", ""},
			{6, "u23/m1", "map", "U23A", "", false, "u23/s0", ""},
		}),
		describe[U23B]("U23B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u23/r1", "pstruct", "U23C", "", false, "", ""},
			{2, "u23/r0", "pstruct", "U23A", "", false, "", ""},
			{3, "u23/s1", "pscalar", "int", "unique", false, "", ""},
			{4, "u23/v1", "slist", "bool", "", false, "", "u23/e1"},
			{5, "u23/s0", "scalar", "str", "identity", true, "", ""},
			{6, "u23/r2", "pstruct", "U23C", "", false, "", ""},
			{7, "u23/v0", "slist", "bool", "", false, "", "u23/e0"},
			{8, "u23/m0", "pmap", "U23C", "", false, "u23/s4", ""},
			{9, "u23/s2", "pscalar", "inst", "", false, "", ""},
			{10, "u23/l1", "list", "U23D", "", false, "", ""},
			{11, "u23/m1", "pmap", "U23D", "", false, "u23/s4", ""},
		}),
		describe[U23C]("U23C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u23/l1", "list", "U23D", "", false, "", ""},
			{2, "u23/s4", "scalar", "float", "", false, "", ""},
			{3, "u23/m0", "map", "U23C", "", false, "sys/db/id", ""},
			{4, "u23/s1", "scalar", "int", "unique", false, "", ""},
			{5, "u23/s0", "scalar", "str", "identity", true, "", ""},
			{6, "u23/r0", "pstruct", "U23A", "", false, "", ""},
			{7, "u23/v1", "slist", "bool", "", true, "", "u23/e1"},
			{8, "u23/m1", "pmap", "U23C", "", false, "u23/s4", ""},
			{9, "u23/s2", "scalar", "inst", "", true, "", ""},
			{10, "u23/l0", "list", "U23A", "", false, "", ""},
		}),
		describe[U23D]("U23D", "", []fieldDesc{
			{0, "u23/s0", "scalar", "str", "identity", true, "", ""},
			{1, "u23/m1", "map", "U23A", "", false, "u23/s0", ""},
			{2, "u23/r0", "pstruct", "U23D", "", false, "", ""},
			{4, "u23/s2", "scalar", "inst", "", false, "", ""},
			{5, "u23/s4", "scalar", "float", "", false, "", ""},
			{6, "sys/db/id", "id", "", "", false, "", ""},
			{7, "u23/v1", "slist", "bool", "", false, "", "u23/e1"},
			{8, "u23/s3", "pscalar", "str", "", false, "", ""},
			{9, "u23/s1", "scalar", "int", "", false, "", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U24A]("U24A", "", []fieldDesc{
			{0, "u24/r1", "pstruct", "U24D", "", false, "", ""},
			{1, "u24/s3", "pscalar", "int", "", false, "", ""},
			{2, "u24/r0", "pstruct", "U24C", "", false, "", ""},
			{3, "u24/l0", "list", "U24A", "", false, "", ""},
			{4, "u24/r2", "pstruct", "U24C", "", false, "", ""},
			{5, "u24/s2", "pscalar", "int", "identity", false, "", ""},
			{6, "u24/s5", "pscalar", "str", "", false, "", ""},
			{7, "u24/s4", "pscalar", "float", "", false, "", ""},
			{8, "u24/s1", "scalar", "int", "", false, "", ""},
		}),
		describe[U24B]("U24B", "", []fieldDesc{
			{0, "u24/s0", "scalar", "str", "identity", false, "", ""},
			{1, "u24/s1", "scalar", "int", "", true, "", ""},
			{2, "u24/s2", "scalar", "int", "identity", false, "", ""},
			{3, "u24/s3", "scalar", "int", "", false, "", ""},
			{4, "u24/s4", "scalar", "float", "", false, "", ""},
			{5, "sys/db/id", "id", "", "", false, "", ""},
			{6, "u24/s5", "pscalar", "str", "", false, "", ""},
			{7, "u24/r1", "pstruct", "U24B", "", false, "", ""},
			{8, "u24/l0", "list", "U24C", "", false, "", ""},
			{9, "u24/m0", "pmap", "U24C", "", false, "u24/s5", ""},
		}),
		describe[U24C]("U24C", "", []fieldDesc{
			{0, "u24/s5", "scalar", "str", "", false, "", ""},
			{1, "u24/s0", "scalar", "str", "identity", false, "", ""},
			{2, "u24/s1", "scalar", "int", "", true, "", ""},
			{3, "u24/s3", "scalar", "int", "", true, "", ""},
			{4, "u24/s2", "scalar", "int", "identity", true, "", ""},
			{6, "u24/r2", "pstruct", "U24A", "", false, "", ""},
		}),
		describe[U24D]("U24D", "", []fieldDesc{
			{0, "u24/s0", "pscalar", "str", "identity", false, "", ""},
			{1, "u24/s2", "scalar", "int", "identity", false, "", ""},
			{2, "u24/s3", "scalar", "int", "", true, "", ""},
			{3, "u24/r1", "pstruct", "U24B", "", false, "", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U25A]("U25A", "", []fieldDesc{
			{0, "u25/r0", "pstruct", "U25B", "", false, "", ""},
			{1, "u25/s0", "pscalar", "str", "identity", false, "", ""},
			{2, "u25/r1", "pstruct", "U25B", "", false, "", ""},
			{3, "u25/s7", "scalar", "float", "", true, "", ""},
			{4, "u25/s5", "pscalar", "bool", "", false, "", ""},
			{5, "u25/s1", "scalar", "int", "", true, "", ""},
			{6, "u25/s4", "scalar", "bool", "", false, "", ""},
			{7, "u25/s6", "scalar", "bool", "", false, "", ""},
			{8, "u25/m0", "pmap", "U25A", "", false, "u25/s6", ""},
			{9, "u25/l0", "list", "U25C", "", false, "", ""},
		}),
		describe[U25B]("U25B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u25/s1", "scalar", "int", "", false, "", ""},
			{3, "u25/s0", "scalar", "str", "identity", false, "", ""},
			{4, "u25/r1", "pstruct", "U25A", "", false, "", ""},
			{5, "u25/s7", "scalar", "float", "", false, "", ""},
			{6, "u25/r2", "pstruct", "U25C", "", false, "", ""},
			{7, "u25/r0", "struct", "U25D", "", false, "", ""},
			{8, "u25/l0", "list", "U25D", "", false, "", ""},
			{9, "u25/s2", "scalar", "str", "", false, "", ""},
			{10, "u25/s6", "pscalar", "bool", "", false, "", ""},
		}),
		describe[U25C]("U25C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u25/s0", "pscalar", "str", "identity", false, "", ""},
			{2, "u25/s2", "scalar", "str", "", false, "", ""},
			{3, "u25/s5", "scalar", "bool", "", false, "", ""},
			{4, "u25/s6", "scalar", "bool", "", false, "", ""},
			{5, "u25/s7", "pscalar", "float", "", false, "", ""},
			{6, "u25/r0", "struct", "U25D", "", false, "", ""},
			{7, "u25/r2", "pstruct", "U25B", "", false, "", ""},
			{8, "u25/l0", "list", "U25B", "", false, "", ""},
			{10, "u25/s2", "pscalar", "str", "", false, "", ""},
		}),
		describe[U25D]("U25D", "", []fieldDesc{
			{0, "u25/s0", "scalar", "str", "identity", true, "", ""},
			{1, "u25/s2", "scalar", "str", "", false, "", ""},
			{2, "u25/s3", "scalar", "int", "", false, "", ""},
			{3, "u25/s4", "scalar", "bool", "", false, "", ""},
			{4, "u25/s5", "scalar", "bool", "", false, "", ""},
			{5, "u25/s7", "scalar", "float", "", false, "", ""},
			{6, "u25/r0", "pstruct", "U25B", "", false, "", ""},
			{7, "u25/r2", "pstruct", "U25B", "", false, "", ""},
			{8, "u25/m0", "map", "U25A", "", false, "u25/s6", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U26A]("U26A", "", []fieldDesc{
			{0, "u26/s3", "scalar", "int", "", true, "", ""},
			{1, "u26/s1", "pscalar", "int", "", false, "", ""},
			{2, "u26/m1", "map", "U26B", "", false, "u26/s5", ""},
			{3, "u26/r1", "struct", "U26D", "", false, "", ""},
			{4, "u26/r0", "pstruct", "U26D", "", false, "", ""},
			{5, "u26/l0", "list", "U26B", "", false, "", ""},
			{6, "u26/s0", "scalar", "str", "", false, "", ""},
			{7, "u26/s4", "scalar", "inst", "", false, "", ""},
			{8, "u26/s2", "scalar", "bool", "", true, "", ""},
			{9, "u26/s6", "scalar", "inst", "", false, "", ""},
		}),
		describe[U26B]("U26B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u26/s1", "scalar", "int", "", false, "", ""},
			{2, "u26/s5", "scalar", "float", "", false, "", ""},
			{3, "u26/s6", "scalar", "inst", "", true, "", ""},
			{4, "u26/r0", "struct", "U26D", "", false, "", ""},
			{5, "u26/r1", "pstruct", "U26B", "", false, "", ""},
			{6, "u26/r2", "struct", "U26D", "", false, "", ""},
			{7, "u26/l0", "list", "U26B", "", false, "", ""},
			{8, "u26/m1", "pmap", "U26D", "", false, "u26/s2", ""},
		}),
		describe[U26C]("U26C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u26/s0", "scalar", "str", "", false, "", ""},
			{2, "u26/s1", "pscalar", "int", "", false, "", ""},
			{3, "u26/s2", "scalar", "bool", "", false, "", ""},
			{4, "u26/s3", "pscalar", "int", "", false, "", ""},
			{5, "u26/s5", "scalar", "float", "", false, "", ""},
			{6, "u26/s6", "pscalar", "inst", "", false, "", ""},
			{7, "u26/r0", "pstruct", "U26C", "", false, "", ""},
			{8, "u26/r2", "struct", "U26D", "", false, "", ""},
			{9, "u26/l0", "list", "U26B", "", false, "", ""},
			{10, "u26/m0", "map", "U26C", "", false, "u26/s5", ""},
			{11, "u26/m1", "pmap", "U26D", "", false, "u26/s2", ""},
		}),
		describe[U26D]("U26D", "", []fieldDesc{
			{0, "u26/s0", "pscalar", "str", "", false, "", ""},
			{1, "u26/s1", "pscalar", "int", "", false, "", ""},
			{2, "u26/s2", "scalar", "bool", "", false, "", ""},
			{3, "u26/s3", "scalar", "int", "", false, "", ""},
			{4, "u26/s4", "pscalar", "inst", "", false, "", ""},
			{5, "u26/s5", "pscalar", "float", "", false, "", ""},
			{6, "u26/s6", "scalar", "inst", "", false, "", ""},
			{7, "u26/r0", "pstruct", "U26B", "", false, "", ""},
			{8, "u26/r1", "pstruct", "U26D", "", false, "", ""},
			{9, "u26/m1", "map", "U26A", "", false, "u26/s0", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U27A]("U27A", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u27/r0", "struct", "U27B", "", false, "", ""},
			{2, "u27/r1", "struct", "U27C", "", false, "", ""},
			{3, "u27/r2", "pstruct", "U27C", "", false, "", ""},
			{4, "u27/l0", "list", "U27A", "", false, "", ""},
			{5, "u27/l1", "list", "U27C", "", false, "", ""},
			{6, "u27/v1", "slist", "int", "", false, "", "u27/e1"},
		}),
		describe[U27B]("U27B", "", []fieldDesc{
			{0, "u27/s1", "scalar", "int", "", false, "", ""},
			{1, "u27/s2", "pscalar", "str", "unique", false, "", ""},
			{2, "u27/s3", "scalar", "bool", "", false, "", ""},
			{3, "u27/r0", "pstruct", "U27D", "", false, "", ""},
			{4, "u27/r1", "pstruct", "U27A", "", false, "", ""},
			{5, "u27/r2", "struct", "U27D", "", false, "", ""},
			{6, "u27/l1", "list", "U27D", "", false, "", ""},
			{7, "u27/v1", "slist", "int", "", false, "", "u27/e1"},
		}),
		describe[U27C]("U27C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u27/s2", "scalar", "str", "unique", true, "", ""},
			{2, "u27/l1", "list", "U27D", "", false, "", ""},
			{3, "u27/l0", "list", "U27B", "", false, "", ""},
			{4, "u27/r1", "struct", "U27D", "", false, "", ""},
			{5, "u27/r2", "pstruct", "U27C", "", false, "", ""},
			{6, "u27/s0", "scalar", "str", "identity", true, "", ""},
			{7, "u27/r0", "struct", "U27D", "", false, "", ""},
			{8, "u27/v0", "slist", "inst", "", false, "", "u27/e0"},
			{9, "u27/s4", "pscalar", "str", "", false, "", ""},
			{10, "u27/v1", "slist", "int", "", true, "", "u27/e1"},
		}),
		describe[U27D]("U27D", "", []fieldDesc{
			{0, "u27/s1", "pscalar", "int", "", false, "", ""},
			{1, "u27/r0", "pstruct", "U27C", "", false, "", ""},
			{2, "u27/v1", "slist", "int", "", false, "", "u27/e1"},
			{3, "u27/l0", "list", "U27A", "", false, "", ""},
			{4, "u27/s3", "scalar", "bool", "", false, "", ""},
			{5, "u27/m0", "map", "U27D", "", false, "u27/s4", ""},
			{6, "u27/s4", "scalar", "str", "", false, "", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U28A]("U28A", "", []fieldDesc{
			{0, "u28/s1", "scalar", "int", "unique", false, "", ""},
			{1, "u28/s2", "pscalar", "int", "", false, "", ""},
			{2, "u28/s4", "scalar", "str", "", false, "", ""},
			{3, "u28/s5", "pscalar", "float", "identity", false, "", ""},
			{4, "u28/s7", "scalar", "float", "", true, "", ""},
			{5, "u28/r0", "struct", "U28C", "", false, "", ""},
			{6, "u28/r2", "pstruct", "U28B", "", false, "", ""},
			{7, "u28/l0", "list", "U28D", "", false, "", ""},
			{8, "u28/l1", "list", "U28A", "", false, "", ""},
			{9, "u28/v0", "slist", "float", "", false, "", "u28/e0"},
		}),
		describe[U28B]("U28B", "", []fieldDesc{
			{0, "u28/s3", "scalar", "bool", "", false, "", ""},
			{1, "sys/db/id", "id", "", "", false, "", ""},
			{2, "u28/r0", "struct", "U28D", "", false, "", ""},
			{3, "u28/s4", "pscalar", "str", "", false, "", ""},
			{4, "u28/s7", "scalar", "float", "", true, "", ""},
			{5, "u28/s2", "scalar", "int", "", true, "", ""},
			{6, "u28/s0", "pscalar", "str", "", false, "", ""},
			{8, "u28/s6", "scalar", "int", "", true, "", ""},
			{9, "u28/s1", "scalar", "int", "unique", false, "", ""},
			{10, "u28/r2", "struct", "U28C", "", false, "", ""},
			{11, "u28/s5", "pscalar", "float", "identity", false, "", ""},
			{12, "u28/l1", "list", "U28D", "", false, "", ""},
		}),
		describe[U28C]("U28C", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u28/m0", "pmap", "U28D", "", false, "u28/s7", ""},
			{2, "u28/s2", "pscalar", "int", "", false, "", ""},
			{3, "u28/l1", "list", "U28D", "", false, "", ""},
			{4, "u28/s3", "scalar", "bool", "", false, "", ""},
			{5, "u28/r1", "struct", "U28D", "", false, "", ""},
			{6, "u28/v0", "slist", "float", "", true, "", "u28/e0"},
			{7, "u28/s4", "scalar", "str", "", false, "", ""},
			{8, "u28/s1", "pscalar", "int", "unique", false, "", ""},
			{9, "u28/r0", "struct", "U28D", "", false, "", ""},
		}),
		describe[U28D]("U28D", "", []fieldDesc{
			{0, "u28/s0", "scalar", "str", "", false, "", ""},
			{1, "u28/r2", "pstruct", "U28D", "", false, "", ""},
			{2, "sys/db/id", "id", "", "", false, "", ""},
			{3, "u28/s5", "scalar", "float", "identity", false, "", ""},
			{5, "u28/s4", "scalar", "str", "", false, "", ""},
			{6, "u28/s2", "pscalar", "int", "", false, "", ""},
			{7, "u28/r1", "pstruct", "U28A", "", false, "", ""},
			{8, "u28/m0", "map", "U28B", "", false, "u28/s1", ""},
			{9, "u28/s7", "scalar", "float", "", false, "", ""},
			{10, "u28/r0", "pstruct", "U28B", "", false, "", ""},
			{11, "u28/s3", "scalar", "bool", "", true, "", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U29A]("U29A", "", []fieldDesc{
			{0, "u29/s0", "scalar", "str", "", false, "", ""},
			{1, "u29/m0", "map", "U29D", "", false, "u29/s2", ""},
			{2, "u29/r1", "pstruct", "U29A", "", false, "", ""},
			{3, "u29/r0", "pstruct", "U29C", "", false, "", ""},
			{4, "u29/v1", "slist", "str", "", true, "", "u29/e1"},
			{5, "u29/s5", "pscalar", "int", "", false, "", ""},
			{6, "u29/r2", "struct", "U29C", "", false, "", ""},
			{7, "u29/s6", "scalar", "float", "", false, "", ""},
			{8, "u29/v0", "slist", "str", "", false, "", "u29/e0"},
			{9, "u29/s6", "pscalar", "float", "", false, "", ""},
		}),
		describe[U29B]("U29B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u29/l0", "list", "U29D", "", false, "", ""},
			{2, "u29/v1", "slist", "str", "", true, "", "u29/e1"},
			{3, "u29/r2", "pstruct", "U29B", "", false, "", ""},
			{4, "u29/s3", "scalar", "str", "", true, "", ""},
			{5, "u29/s5", "pscalar", "int", "", false, "", ""},
			{6, "u29/s1", "scalar", "int", "", true, "", ""},
			{7, "u29/v0", "slist", "str", "", true, "", "u29/e0"},
			{8, "u29/s2", "scalar", "int", "", false, "", ""},
			{9, "u29/r0", "pstruct", "U29A", "", false, "", ""},
		}),
		describe[U29C]("U29C", "", []fieldDesc{
			{0, "u29/r1", "pstruct", "U29D", "", false, "", ""},
			{1, "u29/s5", "scalar", "int", "", false, "", ""},
			{2, "u29/s6", "pscalar", "float", "", false, "", ""},
			{3, "u29/s1", "pscalar", "int", "", false, "", ""},
			{4, "sys/db/id", "id", "", "", false, "", ""},
			{5, "u29/v1", "slist", "str", "", false, "", "u29/e1"},
			{6, "u29/s0", "pscalar", "str", "", false, "", ""},
			{7, "u29/r2", "pstruct", "U29B", "", false, "", ""},
			{8, "u29/s4", "pscalar", "float", "identity", false, "", ""},
			{9, "u29/r0", "pstruct", "U29A", "", false, "", ""},
			{10, "u29/s2", "pscalar", "int", "", false, "", ""},
		}),
		describe[U29D]("U29D", "", []fieldDesc{
			{0, "u29/s1", "scalar", "int", "", false, "", ""},
			{1, "u29/s2", "scalar", "int", "", false, "", ""},
			{2, "u29/s5", "pscalar", "int", "", false, "", ""},
			{3, "u29/s0", "pscalar", "str", "", false, "", ""},
			{4, "u29/r0", "pstruct", "U29C", "", false, "", ""},
			{5, "u29/v0", "slist", "str", "", true, "", "u29/e0"},
			{7, "u29/s3", "scalar", "str", "", true, "", ""},
			{8, "u29/s6", "pscalar", "float", "", false, "", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U30A]("U30A", "", []fieldDesc{
			{0, "u30/r0", "struct", "U30C", "", false, "", ""},
			{1, "u30/s4", "scalar", "str", "", false, "", ""},
			{2, "sys/db/id", "id", "", "", false, "", ""},
			{3, "u30/r1", "struct", "U30B", "", false, "", ""},
			{4, "u30/v0", "slist", "str", "", true, "", "u30/e0"},
			{5, "u30/m0", "map", "U30A", "", false, "u30/s2", ""},
			{6, "u30/l0", "list", "U30D", "", false, "", ""},
			{7, "u30/s2", "scalar", "bool", "", false, "", ""},
		}),
		describe[U30B]("U30B", "", []fieldDesc{
			{0, "u30/s0", "pscalar", "str", "identity", false, "", ""},
			{1, "u30/s2", "pscalar", "bool", "", false, "", ""},
			{2, "u30/s4", "pscalar", "str", "", false, "", ""},
			{3, "u30/r1", "struct", "U30D", "", false, "", ""},
		}),
		describe[U30C]("U30C", "", []fieldDesc{
			{0, "u30/s0", "scalar", "str", "identity", true, "", ""},
			{1, "u30/s2", "pscalar", "bool", "", false, "", ""},
			{2, "u30/s4", "pscalar", "str", "", false, "", ""},
			{3, "u30/r1", "pstruct", "U30C", "", false, "", ""},
			{4, "u30/r2", "struct", "U30D", "", false, "", ""},
			{5, "u30/v0", "slist", "str", "", false, "", "u30/e0"},
		}),
		describe[U30D]("U30D", "", []fieldDesc{
			{0, "u30/s4", "pscalar", "str", "", false, "", ""},
			{1, "u30/r2", "pstruct", "U30D", "", false, "", ""},
			{2, "u30/l0", "list", "U30C", "", false, "", ""},
			{3, "u30/v0", "slist", "str", "", false, "", "u30/e0"},
			{4, "sys/db/id", "id", "", "", false, "", ""},
			{5, "u30/s1", "scalar", "int", "", true, "", ""},
			{6, "u30/s2", "pscalar", "bool", "", false, "", ""},
			{7, "u30/l1", "list", "U30C", "", false, "", ""},
		}),
	}},
	{"graph", []*typeDesc{
		describe[U31A]("U31A", "", []fieldDesc{
			{0, "u31/r2", "pstruct", "U31A", "", false, "", ""},
			{1, "u31/r0", "struct", "U31B", "", false, "", ""},
			{2, "u31/r1", "pstruct", "U31B", "", false, "", ""},
			{3, "u31/m0", "map", "U31D", "", false, "u31/s0", ""},
			{5, "u31/s1", "pscalar", "int", "", false, "", ""},
			{6, "u31/l0", "list", "U31C", "", false, "", ""},
			{7, "u31/s2", "scalar", "inst", "", true, "", ""},
			{8, "sys/db/id", "id", "", "", false, "", ""},
			{9, "u31/v1", "slist", "float", "", true, "", "u31/e0"},
			{10, "u31/s3", "scalar", "bool", "", false, "", ""},
		}),
		describe[U31B]("U31B", "", []fieldDesc{
			{0, "sys/db/id", "id", "", "", false, "", ""},
			{1, "u31/r1", "pstruct", "U31B", "", false, "", ""},
			{3, "u31/s2", "pscalar", "inst", "", false, "", ""},
			{4, "u31/s3", "scalar", "bool", "", false, "", ""},
			{5, "u31/r0", "pstruct", "U31A", "", false, "", ""},
			{6, "u31/l1", "list", "U31B", "", false, "", ""},
		}),
		describe[U31C]("U31C", "", []fieldDesc{
			{0, "u31/v0", "slist", "float", "", false, "", "u31/e0"},
			{1, "u31/r0", "struct", "U31D", "", false, "", ""},
			{2, "u31/l0", "list", "U31A", "", false, "", ""},
			{3, "u31/s2", "pscalar", "inst", "", false, "", ""},
			{4, "u31/l1", "list", "U31B", "", false, "", ""},
			{5, "sys/db/id", "id", "", "", false, "", ""},
			{6, "u31/s0", "pscalar", "str", "", false, "", ""},
		}),
		describe[U31D]("U31D", "", []fieldDesc{
			{0, "u31/s0", "scalar", "str", "", false, "", ""},
			{1, "u31/v1", "slist", "float", "", false, "", "u31/e0"},
			{2, "u31/s2", "scalar", "inst", "", true, "", ""},
			{3, "u31/r0", "pstruct", "U31D", "", false, "", ""},
			{4, "u31/l1", "list", "U31D", "", false, "", ""},
			{5, "u31/v0", "slist", "float", "", false, "", "u31/e0"},
			{6, "u31/r2", "pstruct", "U31A", "", false, "", ""},
		}),
	}},
}
