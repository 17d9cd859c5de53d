//go:build go1.22

// generated by tools/gen_e04shapes.py

package main

type ZA0 struct {
	X int
}
type ZA1 struct {
	ZA0
}
type ZA2 struct {
	ZA1
}
type ZA3 struct {
	ZA2
}
type ZA4 struct {
	ZA2
	X int
}
type ZB0 struct {
	X int
}
type ZA5 struct {
	ZA2
	ZB0
}
type ZB1 struct {
	ZA1
}
type ZA6 struct {
	ZA0
	ZB1
}
type ZA7 struct {
	ZA0
	ZB0
}
type ZA8 struct {
	ZA7
}
type ZA9 struct {
	ZA8
}
type ZA10 struct {
	ZA8
	X int
}
type ZA11 struct {
	ZA8
	ZB0
}
type ZB2 struct {
	ZA7
}
type ZA12 struct {
	ZA0
	ZB2
}
type ZA13 struct {
	ZA1
	X int
}
type ZA14 struct {
	ZA1
	ZB0
}
type ZB3 struct {
	ZA0
}
type ZA15 struct {
	ZA0
	ZB3
}
type ZA16 struct {
	ZA0
	X int
}
type ZA17 struct {
	ZA16
}
type ZA18 struct {
	ZA17
}
type ZA19 struct {
	ZA17
	X int
}
type ZA20 struct {
	ZA17
	ZB0
}
type ZB4 struct {
	ZA16
}
type ZA21 struct {
	ZA0
	ZB4
}
type ZA22 struct {
	ZA0
	ZB0
	X int
}
type ZA23 struct {
	ZA22
}
type ZA24 struct {
	ZA23
}
type ZA25 struct {
	ZA23
	X int
}
type ZA26 struct {
	ZA23
	ZB0
}
type ZB5 struct {
	ZA22
}
type ZA27 struct {
	ZA0
	ZB5
}
type ZA28 struct {
	ZA1
	ZB3
}
type ZA29 struct {
	ZA28
}
type ZA30 struct {
	ZA28
	X int
}
type ZA31 struct {
	ZA28
	ZB0
}
type ZB6 struct {
	ZA1
	ZB3
}
type ZA32 struct {
	ZA0
	ZB6
}
type ZB7 struct {
	ZA0
	ZB0
}
type ZA33 struct {
	ZA1
	ZB7
}
type ZA34 struct {
	ZA33
}
type ZA35 struct {
	ZA33
	X int
}
type ZA36 struct {
	ZA33
	ZB0
}
type ZB8 struct {
	ZA1
	ZB7
}
type ZA37 struct {
	ZA0
	ZB8
}
type ZA38 struct {
	ZA14
}
type ZA39 struct {
	ZA14
	X int
}
type ZA40 struct {
	ZA14
	ZB0
}
type ZB9 struct {
	ZA1
	ZB0
}
type ZA41 struct {
	ZA0
	ZB9
}
type ZB10 struct {
	ZA0
	X int
}
type ZA42 struct {
	ZA1
	ZB10
}
type ZA43 struct {
	ZA42
}
type ZA44 struct {
	ZA42
	X int
}
type ZA45 struct {
	ZA42
	ZB0
}
type ZB11 struct {
	ZA1
	ZB10
}
type ZA46 struct {
	ZA0
	ZB11
}
type ZB12 struct {
	ZA0
	ZB0
	X int
}
type ZA47 struct {
	ZA1
	ZB12
}
type ZA48 struct {
	ZA47
}
type ZA49 struct {
	ZA47
	X int
}
type ZA50 struct {
	ZA47
	ZB0
}
type ZB13 struct {
	ZA1
	ZB12
}
type ZA51 struct {
	ZA0
	ZB13
}
type ZA52 struct {
	ZA7
	ZB3
}
type ZA53 struct {
	ZA52
}
type ZA54 struct {
	ZA52
	X int
}
type ZA55 struct {
	ZA52
	ZB0
}
type ZB14 struct {
	ZA7
	ZB3
}
type ZA56 struct {
	ZA0
	ZB14
}
type ZA57 struct {
	ZA7
	ZB7
}
type ZA58 struct {
	ZA57
}
type ZA59 struct {
	ZA57
	X int
}
type ZA60 struct {
	ZA57
	ZB0
}
type ZB15 struct {
	ZA7
	ZB7
}
type ZA61 struct {
	ZA0
	ZB15
}
type ZA62 struct {
	ZA7
	ZB0
}
type ZA63 struct {
	ZA62
}
type ZA64 struct {
	ZA62
	X int
}
type ZA65 struct {
	ZA62
	ZB0
}
type ZB16 struct {
	ZA7
	ZB0
}
type ZA66 struct {
	ZA0
	ZB16
}
type ZA67 struct {
	ZA7
	ZB10
}
type ZA68 struct {
	ZA67
}
type ZA69 struct {
	ZA67
	X int
}
type ZA70 struct {
	ZA67
	ZB0
}
type ZB17 struct {
	ZA7
	ZB10
}
type ZA71 struct {
	ZA0
	ZB17
}
type ZA72 struct {
	ZA7
	ZB12
}
type ZA73 struct {
	ZA72
}
type ZA74 struct {
	ZA72
	X int
}
type ZA75 struct {
	ZA72
	ZB0
}
type ZB18 struct {
	ZA7
	ZB12
}
type ZA76 struct {
	ZA0
	ZB18
}
type ZA77 struct {
	ZA15
}
type ZA78 struct {
	ZA15
	X int
}
type ZA79 struct {
	ZA15
	ZB0
}
type ZB19 struct {
	ZA0
	ZB3
}
type ZA80 struct {
	ZA0
	ZB19
}
type ZA81 struct {
	ZA0
	ZB7
}
type ZA82 struct {
	ZA81
}
type ZA83 struct {
	ZA81
	X int
}
type ZA84 struct {
	ZA81
	ZB0
}
type ZB20 struct {
	ZA0
	ZB7
}
type ZA85 struct {
	ZA0
	ZB20
}
type ZA86 struct {
	ZA7
	X int
}
type ZA87 struct {
	ZA0
	ZB10
}
type ZA88 struct {
	ZA87
}
type ZA89 struct {
	ZA87
	X int
}
type ZA90 struct {
	ZA87
	ZB0
}
type ZB21 struct {
	ZA0
	ZB10
}
type ZA91 struct {
	ZA0
	ZB21
}
type ZA92 struct {
	ZA0
	ZB12
}
type ZA93 struct {
	ZA92
}
type ZA94 struct {
	ZA92
	X int
}
type ZA95 struct {
	ZA92
	ZB0
}
type ZB22 struct {
	ZA0
	ZB12
}
type ZA96 struct {
	ZA0
	ZB22
}
type ZA97 struct {
	ZA16
	ZB3
}
type ZA98 struct {
	ZA97
}
type ZA99 struct {
	ZA97
	X int
}
type ZA100 struct {
	ZA97
	ZB0
}
type ZB23 struct {
	ZA16
	ZB3
}
type ZA101 struct {
	ZA0
	ZB23
}
type ZA102 struct {
	ZA16
	ZB7
}
type ZA103 struct {
	ZA102
}
type ZA104 struct {
	ZA102
	X int
}
type ZA105 struct {
	ZA102
	ZB0
}
type ZB24 struct {
	ZA16
	ZB7
}
type ZA106 struct {
	ZA0
	ZB24
}
type ZA107 struct {
	ZA16
	ZB0
}
type ZA108 struct {
	ZA107
}
type ZA109 struct {
	ZA107
	X int
}
type ZA110 struct {
	ZA107
	ZB0
}
type ZB25 struct {
	ZA16
	ZB0
}
type ZA111 struct {
	ZA0
	ZB25
}
type ZA112 struct {
	ZA16
	ZB10
}
type ZA113 struct {
	ZA112
}
type ZA114 struct {
	ZA112
	X int
}
type ZA115 struct {
	ZA112
	ZB0
}
type ZB26 struct {
	ZA16
	ZB10
}
type ZA116 struct {
	ZA0
	ZB26
}
type ZA117 struct {
	ZA16
	ZB12
}
type ZA118 struct {
	ZA117
}
type ZA119 struct {
	ZA117
	X int
}
type ZA120 struct {
	ZA117
	ZB0
}
type ZB27 struct {
	ZA16
	ZB12
}
type ZA121 struct {
	ZA0
	ZB27
}
type ZA122 struct {
	ZA22
	ZB3
}
type ZA123 struct {
	ZA122
}
type ZA124 struct {
	ZA122
	X int
}
type ZA125 struct {
	ZA122
	ZB0
}
type ZB28 struct {
	ZA22
	ZB3
}
type ZA126 struct {
	ZA0
	ZB28
}
type ZA127 struct {
	ZA22
	ZB7
}
type ZA128 struct {
	ZA127
}
type ZA129 struct {
	ZA127
	X int
}
type ZA130 struct {
	ZA127
	ZB0
}
type ZB29 struct {
	ZA22
	ZB7
}
type ZA131 struct {
	ZA0
	ZB29
}
type ZA132 struct {
	ZA22
	ZB0
}
type ZA133 struct {
	ZA132
}
type ZA134 struct {
	ZA132
	X int
}
type ZA135 struct {
	ZA132
	ZB0
}
type ZB30 struct {
	ZA22
	ZB0
}
type ZA136 struct {
	ZA0
	ZB30
}
type ZA137 struct {
	ZA22
	ZB10
}
type ZA138 struct {
	ZA137
}
type ZA139 struct {
	ZA137
	X int
}
type ZA140 struct {
	ZA137
	ZB0
}
type ZB31 struct {
	ZA22
	ZB10
}
type ZA141 struct {
	ZA0
	ZB31
}
type ZA142 struct {
	ZA22
	ZB12
}
type ZA143 struct {
	ZA142
}
type ZA144 struct {
	ZA142
	X int
}
type ZA145 struct {
	ZA142
	ZB0
}
type ZB32 struct {
	ZA22
	ZB12
}
type ZA146 struct {
	ZA0
	ZB32
}
type ZA147 struct {
	ZA13
}
type ZA148 struct {
	ZA13
	X int
}
type ZA149 struct {
	ZA13
	ZB0
}
type ZB33 struct {
	ZA1
	X int
}
type ZA150 struct {
	ZA0
	ZB33
}
type ZA151 struct {
	ZA86
}
type ZA152 struct {
	ZA86
	X int
}
type ZA153 struct {
	ZA86
	ZB0
}
type ZB34 struct {
	ZA7
	X int
}
type ZA154 struct {
	ZA0
	ZB34
}
type ZA155 struct {
	ZA16
	X int
}
type ZA156 struct {
	ZA155
}
type ZA157 struct {
	ZA155
	X int
}
type ZA158 struct {
	ZA155
	ZB0
}
type ZB35 struct {
	ZA16
	X int
}
type ZA159 struct {
	ZA0
	ZB35
}
type ZA160 struct {
	ZA22
	X int
}
type ZA161 struct {
	ZA160
}
type ZA162 struct {
	ZA160
	X int
}
type ZA163 struct {
	ZA160
	ZB0
}
type ZB36 struct {
	ZA22
	X int
}
type ZA164 struct {
	ZA0
	ZB36
}
type ZA165 struct {
	ZA1
	ZB3
	X int
}
type ZA166 struct {
	ZA165
}
type ZA167 struct {
	ZA165
	X int
}
type ZA168 struct {
	ZA165
	ZB0
}
type ZB37 struct {
	ZA1
	ZB3
	X int
}
type ZA169 struct {
	ZA0
	ZB37
}
type ZA170 struct {
	ZA1
	ZB7
	X int
}
type ZA171 struct {
	ZA170
}
type ZA172 struct {
	ZA170
	X int
}
type ZA173 struct {
	ZA170
	ZB0
}
type ZB38 struct {
	ZA1
	ZB7
	X int
}
type ZA174 struct {
	ZA0
	ZB38
}
type ZA175 struct {
	ZA1
	ZB0
	X int
}
type ZA176 struct {
	ZA175
}
type ZA177 struct {
	ZA175
	X int
}
type ZA178 struct {
	ZA175
	ZB0
}
type ZB39 struct {
	ZA1
	ZB0
	X int
}
type ZA179 struct {
	ZA0
	ZB39
}
type ZA180 struct {
	ZA1
	ZB10
	X int
}
type ZA181 struct {
	ZA180
}
type ZA182 struct {
	ZA180
	X int
}
type ZA183 struct {
	ZA180
	ZB0
}
type ZB40 struct {
	ZA1
	ZB10
	X int
}
type ZA184 struct {
	ZA0
	ZB40
}
type ZA185 struct {
	ZA1
	ZB12
	X int
}
type ZA186 struct {
	ZA185
}
type ZA187 struct {
	ZA185
	X int
}
type ZA188 struct {
	ZA185
	ZB0
}
type ZB41 struct {
	ZA1
	ZB12
	X int
}
type ZA189 struct {
	ZA0
	ZB41
}
type ZA190 struct {
	ZA7
	ZB3
	X int
}
type ZA191 struct {
	ZA190
}
type ZA192 struct {
	ZA190
	X int
}
type ZA193 struct {
	ZA190
	ZB0
}
type ZB42 struct {
	ZA7
	ZB3
	X int
}
type ZA194 struct {
	ZA0
	ZB42
}
type ZA195 struct {
	ZA7
	ZB7
	X int
}
type ZA196 struct {
	ZA195
}
type ZA197 struct {
	ZA195
	X int
}
type ZA198 struct {
	ZA195
	ZB0
}
type ZB43 struct {
	ZA7
	ZB7
	X int
}
type ZA199 struct {
	ZA0
	ZB43
}
type ZA200 struct {
	ZA7
	ZB0
	X int
}
type ZA201 struct {
	ZA200
}
type ZA202 struct {
	ZA200
	X int
}
type ZA203 struct {
	ZA200
	ZB0
}
type ZB44 struct {
	ZA7
	ZB0
	X int
}
type ZA204 struct {
	ZA0
	ZB44
}
type ZA205 struct {
	ZA7
	ZB10
	X int
}
type ZA206 struct {
	ZA205
}
type ZA207 struct {
	ZA205
	X int
}
type ZA208 struct {
	ZA205
	ZB0
}
type ZB45 struct {
	ZA7
	ZB10
	X int
}
type ZA209 struct {
	ZA0
	ZB45
}
type ZA210 struct {
	ZA7
	ZB12
	X int
}
type ZA211 struct {
	ZA210
}
type ZA212 struct {
	ZA210
	X int
}
type ZA213 struct {
	ZA210
	ZB0
}
type ZB46 struct {
	ZA7
	ZB12
	X int
}
type ZA214 struct {
	ZA0
	ZB46
}
type ZA215 struct {
	ZA0
	ZB3
	X int
}
type ZA216 struct {
	ZA215
}
type ZA217 struct {
	ZA215
	X int
}
type ZA218 struct {
	ZA215
	ZB0
}
type ZB47 struct {
	ZA0
	ZB3
	X int
}
type ZA219 struct {
	ZA0
	ZB47
}
type ZA220 struct {
	ZA0
	ZB7
	X int
}
type ZA221 struct {
	ZA220
}
type ZA222 struct {
	ZA220
	X int
}
type ZA223 struct {
	ZA220
	ZB0
}
type ZB48 struct {
	ZA0
	ZB7
	X int
}
type ZA224 struct {
	ZA0
	ZB48
}
type ZA225 struct {
	ZA0
	ZB10
	X int
}
type ZA226 struct {
	ZA225
}
type ZA227 struct {
	ZA225
	X int
}
type ZA228 struct {
	ZA225
	ZB0
}
type ZB49 struct {
	ZA0
	ZB10
	X int
}
type ZA229 struct {
	ZA0
	ZB49
}
type ZA230 struct {
	ZA0
	ZB12
	X int
}
type ZA231 struct {
	ZA230
}
type ZA232 struct {
	ZA230
	X int
}
type ZA233 struct {
	ZA230
	ZB0
}
type ZB50 struct {
	ZA0
	ZB12
	X int
}
type ZA234 struct {
	ZA0
	ZB50
}
type ZA235 struct {
	ZA16
	ZB3
	X int
}
type ZA236 struct {
	ZA235
}
type ZA237 struct {
	ZA235
	X int
}
type ZA238 struct {
	ZA235
	ZB0
}
type ZB51 struct {
	ZA16
	ZB3
	X int
}
type ZA239 struct {
	ZA0
	ZB51
}
type ZA240 struct {
	ZA16
	ZB7
	X int
}
type ZA241 struct {
	ZA240
}
type ZA242 struct {
	ZA240
	X int
}
type ZA243 struct {
	ZA240
	ZB0
}
type ZB52 struct {
	ZA16
	ZB7
	X int
}
type ZA244 struct {
	ZA0
	ZB52
}
type ZA245 struct {
	ZA16
	ZB0
	X int
}
type ZA246 struct {
	ZA245
}
type ZA247 struct {
	ZA245
	X int
}
type ZA248 struct {
	ZA245
	ZB0
}
type ZB53 struct {
	ZA16
	ZB0
	X int
}
type ZA249 struct {
	ZA0
	ZB53
}
type ZA250 struct {
	ZA16
	ZB10
	X int
}
type ZA251 struct {
	ZA250
}
type ZA252 struct {
	ZA250
	X int
}
type ZA253 struct {
	ZA250
	ZB0
}
type ZB54 struct {
	ZA16
	ZB10
	X int
}
type ZA254 struct {
	ZA0
	ZB54
}
type ZA255 struct {
	ZA16
	ZB12
	X int
}
type ZA256 struct {
	ZA255
}
type ZA257 struct {
	ZA255
	X int
}
type ZA258 struct {
	ZA255
	ZB0
}
type ZB55 struct {
	ZA16
	ZB12
	X int
}
type ZA259 struct {
	ZA0
	ZB55
}
type ZA260 struct {
	ZA22
	ZB3
	X int
}
type ZA261 struct {
	ZA260
}
type ZA262 struct {
	ZA260
	X int
}
type ZA263 struct {
	ZA260
	ZB0
}
type ZB56 struct {
	ZA22
	ZB3
	X int
}
type ZA264 struct {
	ZA0
	ZB56
}
type ZA265 struct {
	ZA22
	ZB7
	X int
}
type ZA266 struct {
	ZA265
}
type ZA267 struct {
	ZA265
	X int
}
type ZA268 struct {
	ZA265
	ZB0
}
type ZB57 struct {
	ZA22
	ZB7
	X int
}
type ZA269 struct {
	ZA0
	ZB57
}
type ZA270 struct {
	ZA22
	ZB0
	X int
}
type ZA271 struct {
	ZA270
}
type ZA272 struct {
	ZA270
	X int
}
type ZA273 struct {
	ZA270
	ZB0
}
type ZB58 struct {
	ZA22
	ZB0
	X int
}
type ZA274 struct {
	ZA0
	ZB58
}
type ZA275 struct {
	ZA22
	ZB10
	X int
}
type ZA276 struct {
	ZA275
}
type ZA277 struct {
	ZA275
	X int
}
type ZA278 struct {
	ZA275
	ZB0
}
type ZB59 struct {
	ZA22
	ZB10
	X int
}
type ZA279 struct {
	ZA0
	ZB59
}
type ZA280 struct {
	ZA22
	ZB12
	X int
}
type ZA281 struct {
	ZA280
}
type ZA282 struct {
	ZA280
	X int
}
type ZA283 struct {
	ZA280
	ZB0
}
type ZB60 struct {
	ZA22
	ZB12
	X int
}
type ZA284 struct {
	ZA0
	ZB60
}

var shapes = []shapeT{
	shape[ZA3](),
	shape[ZA4](),
	shape[ZA5](),
	shape[ZA6](),
	shape[ZA9](),
	shape[ZA10](),
	shape[ZA11](),
	shape[ZA12](),
	shape[ZA2](),
	shape[ZA13](),
	shape[ZA14](),
	shape[ZA15](),
	shape[ZA18](),
	shape[ZA19](),
	shape[ZA20](),
	shape[ZA21](),
	shape[ZA24](),
	shape[ZA25](),
	shape[ZA26](),
	shape[ZA27](),
	shape[ZA29](),
	shape[ZA30](),
	shape[ZA31](),
	shape[ZA32](),
	shape[ZA34](),
	shape[ZA35](),
	shape[ZA36](),
	shape[ZA37](),
	shape[ZA38](),
	shape[ZA39](),
	shape[ZA40](),
	shape[ZA41](),
	shape[ZA43](),
	shape[ZA44](),
	shape[ZA45](),
	shape[ZA46](),
	shape[ZA48](),
	shape[ZA49](),
	shape[ZA50](),
	shape[ZA51](),
	shape[ZA53](),
	shape[ZA54](),
	shape[ZA55](),
	shape[ZA56](),
	shape[ZA58](),
	shape[ZA59](),
	shape[ZA60](),
	shape[ZA61](),
	shape[ZA63](),
	shape[ZA64](),
	shape[ZA65](),
	shape[ZA66](),
	shape[ZA68](),
	shape[ZA69](),
	shape[ZA70](),
	shape[ZA71](),
	shape[ZA73](),
	shape[ZA74](),
	shape[ZA75](),
	shape[ZA76](),
	shape[ZA77](),
	shape[ZA78](),
	shape[ZA79](),
	shape[ZA80](),
	shape[ZA82](),
	shape[ZA83](),
	shape[ZA84](),
	shape[ZA85](),
	shape[ZA8](),
	shape[ZA86](),
	shape[ZA62](),
	shape[ZA81](),
	shape[ZA88](),
	shape[ZA89](),
	shape[ZA90](),
	shape[ZA91](),
	shape[ZA93](),
	shape[ZA94](),
	shape[ZA95](),
	shape[ZA96](),
	shape[ZA98](),
	shape[ZA99](),
	shape[ZA100](),
	shape[ZA101](),
	shape[ZA103](),
	shape[ZA104](),
	shape[ZA105](),
	shape[ZA106](),
	shape[ZA108](),
	shape[ZA109](),
	shape[ZA110](),
	shape[ZA111](),
	shape[ZA113](),
	shape[ZA114](),
	shape[ZA115](),
	shape[ZA116](),
	shape[ZA118](),
	shape[ZA119](),
	shape[ZA120](),
	shape[ZA121](),
	shape[ZA123](),
	shape[ZA124](),
	shape[ZA125](),
	shape[ZA126](),
	shape[ZA128](),
	shape[ZA129](),
	shape[ZA130](),
	shape[ZA131](),
	shape[ZA133](),
	shape[ZA134](),
	shape[ZA135](),
	shape[ZA136](),
	shape[ZA138](),
	shape[ZA139](),
	shape[ZA140](),
	shape[ZA141](),
	shape[ZA143](),
	shape[ZA144](),
	shape[ZA145](),
	shape[ZA146](),
	shape[ZA1](),
	shape[ZA16](),
	shape[ZA7](),
	shape[ZA7](),
	shape[ZA147](),
	shape[ZA148](),
	shape[ZA149](),
	shape[ZA150](),
	shape[ZA151](),
	shape[ZA152](),
	shape[ZA153](),
	shape[ZA154](),
	shape[ZA17](),
	shape[ZA155](),
	shape[ZA107](),
	shape[ZA87](),
	shape[ZA156](),
	shape[ZA157](),
	shape[ZA158](),
	shape[ZA159](),
	shape[ZA161](),
	shape[ZA162](),
	shape[ZA163](),
	shape[ZA164](),
	shape[ZA166](),
	shape[ZA167](),
	shape[ZA168](),
	shape[ZA169](),
	shape[ZA171](),
	shape[ZA172](),
	shape[ZA173](),
	shape[ZA174](),
	shape[ZA176](),
	shape[ZA177](),
	shape[ZA178](),
	shape[ZA179](),
	shape[ZA181](),
	shape[ZA182](),
	shape[ZA183](),
	shape[ZA184](),
	shape[ZA186](),
	shape[ZA187](),
	shape[ZA188](),
	shape[ZA189](),
	shape[ZA191](),
	shape[ZA192](),
	shape[ZA193](),
	shape[ZA194](),
	shape[ZA196](),
	shape[ZA197](),
	shape[ZA198](),
	shape[ZA199](),
	shape[ZA201](),
	shape[ZA202](),
	shape[ZA203](),
	shape[ZA204](),
	shape[ZA206](),
	shape[ZA207](),
	shape[ZA208](),
	shape[ZA209](),
	shape[ZA211](),
	shape[ZA212](),
	shape[ZA213](),
	shape[ZA214](),
	shape[ZA216](),
	shape[ZA217](),
	shape[ZA218](),
	shape[ZA219](),
	shape[ZA221](),
	shape[ZA222](),
	shape[ZA223](),
	shape[ZA224](),
	shape[ZA23](),
	shape[ZA160](),
	shape[ZA132](),
	shape[ZA92](),
	shape[ZA226](),
	shape[ZA227](),
	shape[ZA228](),
	shape[ZA229](),
	shape[ZA231](),
	shape[ZA232](),
	shape[ZA233](),
	shape[ZA234](),
	shape[ZA236](),
	shape[ZA237](),
	shape[ZA238](),
	shape[ZA239](),
	shape[ZA241](),
	shape[ZA242](),
	shape[ZA243](),
	shape[ZA244](),
	shape[ZA246](),
	shape[ZA247](),
	shape[ZA248](),
	shape[ZA249](),
	shape[ZA251](),
	shape[ZA252](),
	shape[ZA253](),
	shape[ZA254](),
	shape[ZA256](),
	shape[ZA257](),
	shape[ZA258](),
	shape[ZA259](),
	shape[ZA261](),
	shape[ZA262](),
	shape[ZA263](),
	shape[ZA264](),
	shape[ZA266](),
	shape[ZA267](),
	shape[ZA268](),
	shape[ZA269](),
	shape[ZA271](),
	shape[ZA272](),
	shape[ZA273](),
	shape[ZA274](),
	shape[ZA276](),
	shape[ZA277](),
	shape[ZA278](),
	shape[ZA279](),
	shape[ZA281](),
	shape[ZA282](),
	shape[ZA283](),
	shape[ZA284](),
}
