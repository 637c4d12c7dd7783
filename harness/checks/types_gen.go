package checks

// generated by tools/gen_types.py

import (
	"reflect"

	"github.com/danomagnum/gologix/lgxtypes"
)

type G0BJHFhMpKYo struct {
	F0 int16
}

type G1sb6QL4PC6TMF3ctIJnlgolcAjq4nOt struct {
	F0  [480]uint8
	F1  [3]int32
	F2  lgxtypes.STRING
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 lgxtypes.COUNTER
}

type G2RQ struct {
	F0  uint64
	F1  lgxtypes.COUNTER
	F2  [480]float64
	F3  [12]G1sb6QL4PC6TMF3ctIJnlgolcAjq4nOt
	F4  lgxtypes.STRING
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 G0BJHFhMpKYo
	F15 lgxtypes.COUNTER
}

type G3 struct {
	F0 G0BJHFhMpKYo
}

type G4UY6In struct {
	F0  int32
	F1  [1]float32
	F2  [100]float32
	F3  float64
	F4  bool
	F5  bool
	F6  lgxtypes.CONTROL
	F7  lgxtypes.STRING
	F8  [10]float64
	F9  G0BJHFhMpKYo
	F10 lgxtypes.TIMER
	F11 [1]int16
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 [12]G3
}

type G5 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 int32
}

type G6 struct {
	F0 int8
	F1 G0BJHFhMpKYo
	F2 int64
}

type G7o struct {
	F0 bool
	F1 bool
	F2 [12]G5
}

type G88 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 [480]uint16
	F20 lgxtypes.COUNTER
}

type G9s struct {
	F0 bool
}

type G10ym struct {
	F0 int32
}

type G11uoDckkzpKGDiYo_wWMgaKepQQrFCLi struct {
	F0 [12]G9s
	F1 G9s
}

type G12z struct {
	F0  [1]uint64
	F1  G6
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  [480]uint32
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 int8
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 [1]float64
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
	F60 bool
	F61 bool
	F62 bool
	F63 bool
	F64 bool
	F65 bool
	F66 bool
	F67 bool
	F68 bool
	F69 bool
	F70 uint32
}

type G13gfBHgqK2kb struct {
	F0 [5]G3
	F1 G6
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 bool
}

type G14OpHBC struct {
	F0  float64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
}

type G15bf struct {
	F0 lgxtypes.CONTROL
	F1 [82]int16
	F2 G14OpHBC
}

type G16 struct {
	F0  uint8
	F1  G1sb6QL4PC6TMF3ctIJnlgolcAjq4nOt
	F2  lgxtypes.COUNTER
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 [3]int64
	F38 uint32
	F39 float64
	F40 lgxtypes.STRING
	F41 bool
	F42 bool
	F43 [10]int32
	F44 G88
}

type G17 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  int32
	F9  [100]int8
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 [5]G1sb6QL4PC6TMF3ctIJnlgolcAjq4nOt
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 [2]G1sb6QL4PC6TMF3ctIJnlgolcAjq4nOt
	F36 lgxtypes.STRING
	F37 [12]G5
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 [2]G6
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
	F60 bool
	F61 bool
	F62 bool
	F63 bool
	F64 G88
}

type G18rc struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  [1]G10ym
	F10 [5]G0BJHFhMpKYo
	F11 int16
}

type G19a8Kgf struct {
	F0 float32
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 bool
}

type G20AnUpV struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  [2]int8
	F8  [2]int16
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 uint16
	F29 [2]int8
	F30 [82]int32
	F31 [2]G88
	F32 int8
	F33 [12]G10ym
	F34 bool
	F35 G19a8Kgf
}

type G21i struct {
	F0 [5]G10ym
}

type G22ErAO2mDSbo7Xhe8lvNQwE1hmpXACf6 struct {
	F0  G6
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
}

type G23L struct {
	F0 G9s
}

type G24 struct {
	F0 lgxtypes.COUNTER
}

type G25hGJChxe1Dp struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 G14OpHBC
}

type G264z struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 int32
	F17 [2]int32
	F18 [2]G1sb6QL4PC6TMF3ctIJnlgolcAjq4nOt
}

type G27h struct {
	F0  lgxtypes.COUNTER
	F1  uint8
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 [100]uint64
	F19 bool
	F20 bool
	F21 [10]uint64
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 lgxtypes.COUNTER
	F31 int64
	F32 [3]uint32
	F33 [10]uint64
	F34 [5]G24
	F35 [480]int32
}

type G287k6uZ struct {
	F0 lgxtypes.STRING
}

type G29g struct {
	F0  [82]float32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 lgxtypes.TIMER
	F18 int8
	F19 int32
}

type G306 struct {
	F0  lgxtypes.CONTROL
	F1  [2]G24
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
}

type G315JNU1 struct {
	F0 float32
}

type G32G struct {
	F0 int32
}

type G331SKbYKx_o4oIZoRGTdosCOMRNhDqbL struct {
	F0  lgxtypes.CONTROL
	F1  G10ym
	F2  uint8
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 [1]G3
}

type G34GZ1DrCzPcMSum1cBd8VQ6ABffWoNYQ struct {
	F0 [1]uint16
	F1 [82]int8
	F2 [2]G3
	F3 bool
	F4 [480]int32
}

type G35 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  G14OpHBC
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 float64
	F26 [12]G10ym
	F27 uint8
	F28 [1]G3
	F29 int8
}

type G36w struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  uint32
	F9  bool
	F10 bool
	F11 [480]int8
	F12 [3]int8
}

type G37S struct {
	F0 lgxtypes.CONTROL
	F1 int64
}

type G38 struct {
	F0  [5]G32G
	F1  float64
	F2  [2]G287k6uZ
	F3  [1]G24
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 lgxtypes.COUNTER
	F13 bool
	F14 [10]uint16
	F15 [5]G0BJHFhMpKYo
	F16 [10]uint16
	F17 [2]G287k6uZ
	F18 G315JNU1
	F19 int16
}

type G39N9dwn struct {
	F0  [10]int32
	F1  G315JNU1
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
}

type G403sb2q struct {
	F0  [10]uint16
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  [1]uint64
	F10 [3]float64
	F11 [2]int64
}

type G41nH struct {
	F0  uint32
	F1  int16
	F2  [480]int64
	F3  uint32
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 [12]G3
	F13 [1]int64
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 [1]uint8
	F22 [1]float64
	F23 [1]uint16
	F24 G24
	F25 uint64
}

type G42GlQUl struct {
	F0 [82]int64
}

type G43xHhArsKmNh struct {
	F0 int64
	F1 [9]uint8
	F2 G29g
}

type G44Me struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 int64
	F17 [2]G36w
	F18 uint16
	F19 bool
	F20 [9]int16
	F21 float64
	F22 int8
}

type G45GdYAchehSZ struct {
	F0  G331SKbYKx_o4oIZoRGTdosCOMRNhDqbL
	F1  G32G
	F2  lgxtypes.TIMER
	F3  lgxtypes.STRING
	F4  [9]float64
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 int16
	F22 bool
}

type G46diyJy_FfI8 struct {
	F0 bool
}

type G470 struct {
	F0  G331SKbYKx_o4oIZoRGTdosCOMRNhDqbL
	F1  lgxtypes.CONTROL
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [10]uint16
	F11 [5]G14OpHBC
	F12 [2]G24
	F13 [1]float64
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
}

type G48 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 [480]uint32
}

type G49 struct {
	F0 G6
	F1 lgxtypes.CONTROL
	F2 G403sb2q
	F3 [480]uint64
	F4 [100]int16
}

type G50 struct {
	F0 bool
	F1 bool
	F2 lgxtypes.STRING
}

type G51Qw struct {
	F0  lgxtypes.COUNTER
	F1  lgxtypes.TIMER
	F2  [2]G14OpHBC
	F3  bool
	F4  G42GlQUl
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 uint8
	F23 G315JNU1
}

type G52y struct {
	F0  bool
	F1  bool
	F2  bool
	F3  [10]int8
	F4  [3]float64
	F5  lgxtypes.TIMER
	F6  [1]int8
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 lgxtypes.STRING
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 lgxtypes.TIMER
}

type G53Zpf8vDf5DS4HnMtx3VvEs4p9Z8vudd struct {
	F0 [5]G46diyJy_FfI8
	F1 bool
	F2 [2]G32G
	F3 float32
	F4 int32
}

type G54iHKvrU5cZopCOWfnrQn10fPlor9h77 struct {
	F0 [10]uint32
	F1 uint16
	F2 G48
	F3 float64
	F4 lgxtypes.TIMER
	F5 [82]int16
	F6 lgxtypes.TIMER
	F7 [82]int64
}

type G55O6gNBx0Zv4bdDNsFSIEMKN_IIIRgZh struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  [12]G24
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 [3]float64
	F29 G14OpHBC
	F30 bool
	F31 bool
}

type G56 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 [12]G48
}

type G57TDwpq struct {
	F0 lgxtypes.COUNTER
	F1 lgxtypes.COUNTER
	F2 [5]G55O6gNBx0Zv4bdDNsFSIEMKN_IIIRgZh
	F3 uint8
	F4 int8
}

type G58w struct {
	F0 G27h
}

type G59B7 struct {
	F0 int16
}

type G601FqqdYjFuF6TyEgQa6CQUcn1JaCiUp struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
}

type G61 struct {
	F0  G24
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [5]G29g
	F11 lgxtypes.COUNTER
	F12 [480]int32
	F13 bool
	F14 G54iHKvrU5cZopCOWfnrQn10fPlor9h77
	F15 lgxtypes.COUNTER
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 [3]int8
	F35 [1]int32
	F36 bool
}

type G62i5CvP struct {
	F0 bool
	F1 bool
	F2 uint64
}

type G63i860A struct {
	F0 int8
	F1 bool
}

type G64v struct {
	F0 G52y
	F1 int16
	F2 bool
	F3 bool
	F4 G25hGJChxe1Dp
	F5 G32G
	F6 bool
	F7 bool
}

type G65cXlERQPCvE struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 [1]float64
	F9 [5]G59B7
}

type G66jE9_3 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 [2]G54iHKvrU5cZopCOWfnrQn10fPlor9h77
}

type G67Wx struct {
	F0  lgxtypes.CONTROL
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
}

type G68B14Q7ZWQ7N4koNImpQNkYTtpuXJGly struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
}

type G690Vzgjb5_B4b11fWn0l0SHFDl7RVYrN struct {
	F0 lgxtypes.TIMER
	F1 uint16
	F2 [480]uint8
	F3 bool
	F4 bool
	F5 G32G
	F6 bool
	F7 bool
	F8 bool
}

type G70xB struct {
	F0  [10]int8
	F1  bool
	F2  bool
	F3  [1]G55O6gNBx0Zv4bdDNsFSIEMKN_IIIRgZh
	F4  bool
	F5  lgxtypes.STRING
	F6  [10]uint16
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 uint32
	F16 [82]uint8
	F17 int32
	F18 [480]float64
	F19 [1]G68B14Q7ZWQ7N4koNImpQNkYTtpuXJGly
}

type G711X struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  [1]uint32
	F9  G35
	F10 [82]uint64
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
}

type G72MhQA_ struct {
	F0 G601FqqdYjFuF6TyEgQa6CQUcn1JaCiUp
}

type G73LjaLg6wvN2 struct {
	F0  lgxtypes.CONTROL
	F1  uint32
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 [100]int64
	F20 float64
	F21 G601FqqdYjFuF6TyEgQa6CQUcn1JaCiUp
	F22 G36w
	F23 bool
	F24 [480]uint64
	F25 bool
	F26 bool
	F27 G58w
	F28 G63i860A
	F29 G63i860A
}

type G74pB0DEAgIOtsvBQN3ekl31lmtc35kM4 struct {
	F0 float32
	F1 [100]int16
	F2 float64
	F3 [480]int64
	F4 [480]float64
}

type G75u6zaVBzdDTK3nuzdBR5BCkyB8txpAv struct {
	F0 float32
	F1 uint32
	F2 int16
	F3 [12]G35
	F4 [1]G403sb2q
}

type G767g7XEzFuRe2D2EpTVzgdXX6WGCNJLH struct {
	F0 [100]int32
	F1 [9]int16
}

type G77_ struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 float32
}

type G78qlcR1wGCppsH1aFwNtP948F3YweTCZ struct {
	F0  lgxtypes.STRING
	F1  bool
	F2  bool
	F3  [10]uint16
	F4  lgxtypes.COUNTER
	F5  G58w
	F6  [5]G67Wx
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 uint64
}

type G79EL struct {
	F0  [1]G63i860A
	F1  bool
	F2  uint32
	F3  [2]int32
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
}

type G80br struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [82]uint32
	F18 uint16
	F19 [1]uint32
	F20 lgxtypes.CONTROL
	F21 uint16
	F22 uint64
	F23 float64
}

type G81s4 struct {
	F0 [3]float64
	F1 int32
}

type G82Zpbu_3A9yb struct {
	F0 int64
}

type G83R_HcU struct {
	F0  [5]G74pB0DEAgIOtsvBQN3ekl31lmtc35kM4
	F1  lgxtypes.CONTROL
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [100]uint32
	F11 [2]uint32
}

type G846K struct {
	F0  [3]uint8
	F1  G57TDwpq
	F2  [1]uint32
	F3  int32
	F4  [5]G74pB0DEAgIOtsvBQN3ekl31lmtc35kM4
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 G77_
	F15 [12]G46diyJy_FfI8
	F16 [2]int8
	F17 [100]float64
	F18 [82]int32
	F19 lgxtypes.COUNTER
}

type G857h2dH struct {
	F0 [100]float32
	F1 [3]float64
	F2 [480]int8
}

type G86BRKIg8kUlvAZxdC9jTl8AIwEl1GWKU struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
}

type G87 struct {
	F0  [1]G70xB
	F1  [3]int64
	F2  uint32
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 float64
}

type G88r struct {
	F0 [3]uint32
	F1 int8
	F2 G711X
}

type G89Z0DgEnMNtWaRPU_M0qaCiPfbP3KZc1 struct {
	F0 lgxtypes.STRING
	F1 [5]G74pB0DEAgIOtsvBQN3ekl31lmtc35kM4
}

type G90OBNyfBlNnBC9fXpU1Li5Dc6FdhPdlG struct {
	F0 uint64
}

type G91eoFlo struct {
	F0 G90OBNyfBlNnBC9fXpU1Li5Dc6FdhPdlG
	F1 [100]int16
	F2 [100]uint8
	F3 lgxtypes.STRING
	F4 [10]int8
	F5 bool
	F6 G58w
	F7 [5]G82Zpbu_3A9yb
}

type G927 struct {
	F0 [3]uint32
}

type G93moKgU struct {
	F0 float64
	F1 [1]int8
	F2 [2]uint16
}

type G94m struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 [12]G80br
	F17 [1]G77_
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 lgxtypes.TIMER
	F27 lgxtypes.TIMER
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 lgxtypes.CONTROL
	F39 bool
	F40 G846K
	F41 [5]G767g7XEzFuRe2D2EpTVzgdXX6WGCNJLH
	F42 bool
	F43 bool
}

type G95 struct {
	F0 bool
}

type G96 struct {
	F0 G846K
}

type G978H282 struct {
	F0 G73LjaLg6wvN2
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 [9]int32
}

type G98Dn struct {
	F0 [2]G79EL
}

type G99yEB6p_F0b5 struct {
	F0 [100]uint32
	F1 [5]G86BRKIg8kUlvAZxdC9jTl8AIwEl1GWKU
	F2 [10]uint64
}

type G100I7Bp8OURddRcfFZT01DTcm50OgLvUD struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
}

type G101PQGSvPQQ7YVdEi46Dejmn77DPbOuTc struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
}

type G1020vdvtwLbKZ struct {
	F0 G95
}

type G103ZP struct {
	F0 [1]G83R_HcU
}

type G104Jk_N6Aon21bUC2Q8FgF2PzaE4rr2JQ struct {
	F0  lgxtypes.CONTROL
	F1  [2]G79EL
	F2  [82]int64
	F3  [5]G711X
	F4  int16
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 [100]uint32
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 lgxtypes.COUNTER
	F33 [1]uint32
	F34 bool
	F35 bool
}

type G105V9y6cP5juv struct {
	F0 [1]G927
	F1 uint8
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
}

type G106 struct {
	F0 lgxtypes.CONTROL
	F1 G87
	F2 G927
}

type G107kQ struct {
	F0 [9]int64
}

type G108R7 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  [2]int32
	F10 bool
	F11 bool
	F12 [100]uint16
	F13 [1]G857h2dH
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 float64
	F31 bool
}

type G109 struct {
	F0  [2]G927
	F1  int64
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [5]G79EL
	F11 [3]uint32
}

type G110 struct {
	F0 uint16
}

type G111z struct {
	F0 [12]G82Zpbu_3A9yb
	F1 lgxtypes.STRING
	F2 lgxtypes.COUNTER
}

type G1120v struct {
	F0  [9]uint8
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 lgxtypes.COUNTER
	F18 bool
	F19 bool
	F20 [100]int32
	F21 [9]int8
	F22 [100]uint16
	F23 [82]int8
	F24 [2]uint32
	F25 lgxtypes.CONTROL
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
}

type G1133oIPF struct {
	F0 G77_
	F1 [2]G86BRKIg8kUlvAZxdC9jTl8AIwEl1GWKU
	F2 lgxtypes.TIMER
	F3 [10]int16
	F4 G110
}

type G1140vNYU3F_gh struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 [82]int8
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 [5]G83R_HcU
	F33 int64
	F34 [2]G77_
	F35 bool
}

type G115GumkaZGJ9_aErTeJ7SmcgPJI8cTASq struct {
	F0  [10]uint64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [12]G105V9y6cP5juv
	F11 [12]G105V9y6cP5juv
}

type G116brXJ6 struct {
	F0 uint8
}

type G1176K struct {
	F0  lgxtypes.COUNTER
	F1  [10]int64
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 G83R_HcU
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 float32
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 float64
	F25 [2]uint32
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 [100]int64
}

type G118 struct {
	F0 G86BRKIg8kUlvAZxdC9jTl8AIwEl1GWKU
}

type G119SFyVl struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 G978H282
}

type G120nDlfj struct {
	F0 float32
	F1 [100]uint64
}

type G121GPS1CUFM1v struct {
	F0 G105V9y6cP5juv
	F1 [1]float64
}

type G122fOrJFUST1OxYxzQ3wPHBCz6tpJvn1o struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
}

type G123fkjAE struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  G81s4
	F10 uint16
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 [82]int32
	F44 G110
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 [10]float32
	F53 int8
	F54 int64
	F55 int8
}

type G124c30pH struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 G1120v
	F24 [480]int32
}

type G125r struct {
	F0  [10]uint64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 [100]uint32
	F19 uint16
	F20 lgxtypes.COUNTER
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 [480]int64
	F30 int8
	F31 int8
	F32 lgxtypes.TIMER
	F33 bool
	F34 lgxtypes.STRING
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
}

type G126jwZRM2twiDjJliS7gwr6GHByQHoIQY struct {
	F0 G116brXJ6
	F1 [12]G123fkjAE
}

type G127utaC99qcJU struct {
	F0 [1]G105V9y6cP5juv
}

type G128E struct {
	F0 uint16
	F1 uint8
}

type G129ynPZ5 struct {
	F0 [12]G108R7
}

type G130cCZr620dtY struct {
	F0  float32
	F1  lgxtypes.CONTROL
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 [1]G116brXJ6
	F12 [100]uint8
	F13 uint8
	F14 bool
	F15 bool
	F16 int8
}

type G131VNqRo struct {
	F0 float64
}

type G132tYDizYAGXvRlSmqwd4KPqResUYFM4g struct {
	F0 G130cCZr620dtY
}

type G133ByYGKDHnDY struct {
	F0 int16
	F1 [5]G1120v
	F2 [3]float32
}

type G134C struct {
	F0 [10]uint32
}

type G135TPFbm1fAX74HhSJDQuDIro3cq65kMS struct {
	F0  G105V9y6cP5juv
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  [2]int16
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 [1]G103ZP
	F34 int64
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 lgxtypes.STRING
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 [9]int64
}

type G136WkTFW struct {
	F0  int16
	F1  [1]uint16
	F2  lgxtypes.CONTROL
	F3  [1]G122fOrJFUST1OxYxzQ3wPHBCz6tpJvn1o
	F4  uint16
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 [5]G116brXJ6
	F13 bool
	F14 bool
	F15 lgxtypes.TIMER
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 uint32
}

type G1371hRJX struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 uint16
}

type G138ZS9DfTurjWFcbCYcC5CPni3xcdY0IK struct {
	F0 [5]G135TPFbm1fAX74HhSJDQuDIro3cq65kMS
	F1 [82]int64
}

type G139C struct {
	F0 [100]uint32
}

var genTypes = []reflect.Type{
	reflect.TypeOf(G0BJHFhMpKYo{}),
	reflect.TypeOf(G1sb6QL4PC6TMF3ctIJnlgolcAjq4nOt{}),
	reflect.TypeOf(G2RQ{}),
	reflect.TypeOf(G3{}),
	reflect.TypeOf(G4UY6In{}),
	reflect.TypeOf(G5{}),
	reflect.TypeOf(G6{}),
	reflect.TypeOf(G7o{}),
	reflect.TypeOf(G88{}),
	reflect.TypeOf(G9s{}),
	reflect.TypeOf(G10ym{}),
	reflect.TypeOf(G11uoDckkzpKGDiYo_wWMgaKepQQrFCLi{}),
	reflect.TypeOf(G12z{}),
	reflect.TypeOf(G13gfBHgqK2kb{}),
	reflect.TypeOf(G14OpHBC{}),
	reflect.TypeOf(G15bf{}),
	reflect.TypeOf(G16{}),
	reflect.TypeOf(G17{}),
	reflect.TypeOf(G18rc{}),
	reflect.TypeOf(G19a8Kgf{}),
	reflect.TypeOf(G20AnUpV{}),
	reflect.TypeOf(G21i{}),
	reflect.TypeOf(G22ErAO2mDSbo7Xhe8lvNQwE1hmpXACf6{}),
	reflect.TypeOf(G23L{}),
	reflect.TypeOf(G24{}),
	reflect.TypeOf(G25hGJChxe1Dp{}),
	reflect.TypeOf(G264z{}),
	reflect.TypeOf(G27h{}),
	reflect.TypeOf(G287k6uZ{}),
	reflect.TypeOf(G29g{}),
	reflect.TypeOf(G306{}),
	reflect.TypeOf(G315JNU1{}),
	reflect.TypeOf(G32G{}),
	reflect.TypeOf(G331SKbYKx_o4oIZoRGTdosCOMRNhDqbL{}),
	reflect.TypeOf(G34GZ1DrCzPcMSum1cBd8VQ6ABffWoNYQ{}),
	reflect.TypeOf(G35{}),
	reflect.TypeOf(G36w{}),
	reflect.TypeOf(G37S{}),
	reflect.TypeOf(G38{}),
	reflect.TypeOf(G39N9dwn{}),
	reflect.TypeOf(G403sb2q{}),
	reflect.TypeOf(G41nH{}),
	reflect.TypeOf(G42GlQUl{}),
	reflect.TypeOf(G43xHhArsKmNh{}),
	reflect.TypeOf(G44Me{}),
	reflect.TypeOf(G45GdYAchehSZ{}),
	reflect.TypeOf(G46diyJy_FfI8{}),
	reflect.TypeOf(G470{}),
	reflect.TypeOf(G48{}),
	reflect.TypeOf(G49{}),
	reflect.TypeOf(G50{}),
	reflect.TypeOf(G51Qw{}),
	reflect.TypeOf(G52y{}),
	reflect.TypeOf(G53Zpf8vDf5DS4HnMtx3VvEs4p9Z8vudd{}),
	reflect.TypeOf(G54iHKvrU5cZopCOWfnrQn10fPlor9h77{}),
	reflect.TypeOf(G55O6gNBx0Zv4bdDNsFSIEMKN_IIIRgZh{}),
	reflect.TypeOf(G56{}),
	reflect.TypeOf(G57TDwpq{}),
	reflect.TypeOf(G58w{}),
	reflect.TypeOf(G59B7{}),
	reflect.TypeOf(G601FqqdYjFuF6TyEgQa6CQUcn1JaCiUp{}),
	reflect.TypeOf(G61{}),
	reflect.TypeOf(G62i5CvP{}),
	reflect.TypeOf(G63i860A{}),
	reflect.TypeOf(G64v{}),
	reflect.TypeOf(G65cXlERQPCvE{}),
	reflect.TypeOf(G66jE9_3{}),
	reflect.TypeOf(G67Wx{}),
	reflect.TypeOf(G68B14Q7ZWQ7N4koNImpQNkYTtpuXJGly{}),
	reflect.TypeOf(G690Vzgjb5_B4b11fWn0l0SHFDl7RVYrN{}),
	reflect.TypeOf(G70xB{}),
	reflect.TypeOf(G711X{}),
	reflect.TypeOf(G72MhQA_{}),
	reflect.TypeOf(G73LjaLg6wvN2{}),
	reflect.TypeOf(G74pB0DEAgIOtsvBQN3ekl31lmtc35kM4{}),
	reflect.TypeOf(G75u6zaVBzdDTK3nuzdBR5BCkyB8txpAv{}),
	reflect.TypeOf(G767g7XEzFuRe2D2EpTVzgdXX6WGCNJLH{}),
	reflect.TypeOf(G77_{}),
	reflect.TypeOf(G78qlcR1wGCppsH1aFwNtP948F3YweTCZ{}),
	reflect.TypeOf(G79EL{}),
	reflect.TypeOf(G80br{}),
	reflect.TypeOf(G81s4{}),
	reflect.TypeOf(G82Zpbu_3A9yb{}),
	reflect.TypeOf(G83R_HcU{}),
	reflect.TypeOf(G846K{}),
	reflect.TypeOf(G857h2dH{}),
	reflect.TypeOf(G86BRKIg8kUlvAZxdC9jTl8AIwEl1GWKU{}),
	reflect.TypeOf(G87{}),
	reflect.TypeOf(G88r{}),
	reflect.TypeOf(G89Z0DgEnMNtWaRPU_M0qaCiPfbP3KZc1{}),
	reflect.TypeOf(G90OBNyfBlNnBC9fXpU1Li5Dc6FdhPdlG{}),
	reflect.TypeOf(G91eoFlo{}),
	reflect.TypeOf(G927{}),
	reflect.TypeOf(G93moKgU{}),
	reflect.TypeOf(G94m{}),
	reflect.TypeOf(G95{}),
	reflect.TypeOf(G96{}),
	reflect.TypeOf(G978H282{}),
	reflect.TypeOf(G98Dn{}),
	reflect.TypeOf(G99yEB6p_F0b5{}),
	reflect.TypeOf(G100I7Bp8OURddRcfFZT01DTcm50OgLvUD{}),
	reflect.TypeOf(G101PQGSvPQQ7YVdEi46Dejmn77DPbOuTc{}),
	reflect.TypeOf(G1020vdvtwLbKZ{}),
	reflect.TypeOf(G103ZP{}),
	reflect.TypeOf(G104Jk_N6Aon21bUC2Q8FgF2PzaE4rr2JQ{}),
	reflect.TypeOf(G105V9y6cP5juv{}),
	reflect.TypeOf(G106{}),
	reflect.TypeOf(G107kQ{}),
	reflect.TypeOf(G108R7{}),
	reflect.TypeOf(G109{}),
	reflect.TypeOf(G110{}),
	reflect.TypeOf(G111z{}),
	reflect.TypeOf(G1120v{}),
	reflect.TypeOf(G1133oIPF{}),
	reflect.TypeOf(G1140vNYU3F_gh{}),
	reflect.TypeOf(G115GumkaZGJ9_aErTeJ7SmcgPJI8cTASq{}),
	reflect.TypeOf(G116brXJ6{}),
	reflect.TypeOf(G1176K{}),
	reflect.TypeOf(G118{}),
	reflect.TypeOf(G119SFyVl{}),
	reflect.TypeOf(G120nDlfj{}),
	reflect.TypeOf(G121GPS1CUFM1v{}),
	reflect.TypeOf(G122fOrJFUST1OxYxzQ3wPHBCz6tpJvn1o{}),
	reflect.TypeOf(G123fkjAE{}),
	reflect.TypeOf(G124c30pH{}),
	reflect.TypeOf(G125r{}),
	reflect.TypeOf(G126jwZRM2twiDjJliS7gwr6GHByQHoIQY{}),
	reflect.TypeOf(G127utaC99qcJU{}),
	reflect.TypeOf(G128E{}),
	reflect.TypeOf(G129ynPZ5{}),
	reflect.TypeOf(G130cCZr620dtY{}),
	reflect.TypeOf(G131VNqRo{}),
	reflect.TypeOf(G132tYDizYAGXvRlSmqwd4KPqResUYFM4g{}),
	reflect.TypeOf(G133ByYGKDHnDY{}),
	reflect.TypeOf(G134C{}),
	reflect.TypeOf(G135TPFbm1fAX74HhSJDQuDIro3cq65kMS{}),
	reflect.TypeOf(G136WkTFW{}),
	reflect.TypeOf(G1371hRJX{}),
	reflect.TypeOf(G138ZS9DfTurjWFcbCYcC5CPni3xcdY0IK{}),
	reflect.TypeOf(G139C{}),
}
