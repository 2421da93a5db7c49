// ---------------------------------------------------------------------------
// IEEE double operations are uninterpreted; the wrappers below are what rule
// R-float puts in place of the operators (their bodies are the operators).
// ---------------------------------------------------------------------------
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub uninterp spec fn fneg(a: f64) -> f64;
pub uninterp spec fn fis_inf(a: f64) -> bool;
pub uninterp spec fn fis_nan(a: f64) -> bool;
pub uninterp spec fn feq(a: f64, b: f64) -> bool;
/// The double nearest to 10^i (as the Rust compiler reads the literal).
#[verifier::opaque]
pub open spec fn pow10(i: int) -> f64 {
    if i == 0 { 1e0f64 }
    else if i == 1 { 1e1f64 }
    else if i == 2 { 1e2f64 }
    else if i == 3 { 1e3f64 }
    else if i == 4 { 1e4f64 }
    else if i == 5 { 1e5f64 }
    else if i == 6 { 1e6f64 }
    else if i == 7 { 1e7f64 }
    else if i == 8 { 1e8f64 }
    else if i == 9 { 1e9f64 }
    else if i == 10 { 1e10f64 }
    else if i == 11 { 1e11f64 }
    else if i == 12 { 1e12f64 }
    else if i == 13 { 1e13f64 }
    else if i == 14 { 1e14f64 }
    else if i == 15 { 1e15f64 }
    else if i == 16 { 1e16f64 }
    else if i == 17 { 1e17f64 }
    else if i == 18 { 1e18f64 }
    else if i == 19 { 1e19f64 }
    else if i == 20 { 1e20f64 }
    else if i == 21 { 1e21f64 }
    else if i == 22 { 1e22f64 }
    else if i == 23 { 1e23f64 }
    else if i == 24 { 1e24f64 }
    else if i == 25 { 1e25f64 }
    else if i == 26 { 1e26f64 }
    else if i == 27 { 1e27f64 }
    else if i == 28 { 1e28f64 }
    else if i == 29 { 1e29f64 }
    else if i == 30 { 1e30f64 }
    else if i == 31 { 1e31f64 }
    else if i == 32 { 1e32f64 }
    else if i == 33 { 1e33f64 }
    else if i == 34 { 1e34f64 }
    else if i == 35 { 1e35f64 }
    else if i == 36 { 1e36f64 }
    else if i == 37 { 1e37f64 }
    else if i == 38 { 1e38f64 }
    else if i == 39 { 1e39f64 }
    else if i == 40 { 1e40f64 }
    else if i == 41 { 1e41f64 }
    else if i == 42 { 1e42f64 }
    else if i == 43 { 1e43f64 }
    else if i == 44 { 1e44f64 }
    else if i == 45 { 1e45f64 }
    else if i == 46 { 1e46f64 }
    else if i == 47 { 1e47f64 }
    else if i == 48 { 1e48f64 }
    else if i == 49 { 1e49f64 }
    else if i == 50 { 1e50f64 }
    else if i == 51 { 1e51f64 }
    else if i == 52 { 1e52f64 }
    else if i == 53 { 1e53f64 }
    else if i == 54 { 1e54f64 }
    else if i == 55 { 1e55f64 }
    else if i == 56 { 1e56f64 }
    else if i == 57 { 1e57f64 }
    else if i == 58 { 1e58f64 }
    else if i == 59 { 1e59f64 }
    else if i == 60 { 1e60f64 }
    else if i == 61 { 1e61f64 }
    else if i == 62 { 1e62f64 }
    else if i == 63 { 1e63f64 }
    else if i == 64 { 1e64f64 }
    else if i == 65 { 1e65f64 }
    else if i == 66 { 1e66f64 }
    else if i == 67 { 1e67f64 }
    else if i == 68 { 1e68f64 }
    else if i == 69 { 1e69f64 }
    else if i == 70 { 1e70f64 }
    else if i == 71 { 1e71f64 }
    else if i == 72 { 1e72f64 }
    else if i == 73 { 1e73f64 }
    else if i == 74 { 1e74f64 }
    else if i == 75 { 1e75f64 }
    else if i == 76 { 1e76f64 }
    else if i == 77 { 1e77f64 }
    else if i == 78 { 1e78f64 }
    else if i == 79 { 1e79f64 }
    else if i == 80 { 1e80f64 }
    else if i == 81 { 1e81f64 }
    else if i == 82 { 1e82f64 }
    else if i == 83 { 1e83f64 }
    else if i == 84 { 1e84f64 }
    else if i == 85 { 1e85f64 }
    else if i == 86 { 1e86f64 }
    else if i == 87 { 1e87f64 }
    else if i == 88 { 1e88f64 }
    else if i == 89 { 1e89f64 }
    else if i == 90 { 1e90f64 }
    else if i == 91 { 1e91f64 }
    else if i == 92 { 1e92f64 }
    else if i == 93 { 1e93f64 }
    else if i == 94 { 1e94f64 }
    else if i == 95 { 1e95f64 }
    else if i == 96 { 1e96f64 }
    else if i == 97 { 1e97f64 }
    else if i == 98 { 1e98f64 }
    else if i == 99 { 1e99f64 }
    else if i == 100 { 1e100f64 }
    else if i == 101 { 1e101f64 }
    else if i == 102 { 1e102f64 }
    else if i == 103 { 1e103f64 }
    else if i == 104 { 1e104f64 }
    else if i == 105 { 1e105f64 }
    else if i == 106 { 1e106f64 }
    else if i == 107 { 1e107f64 }
    else if i == 108 { 1e108f64 }
    else if i == 109 { 1e109f64 }
    else if i == 110 { 1e110f64 }
    else if i == 111 { 1e111f64 }
    else if i == 112 { 1e112f64 }
    else if i == 113 { 1e113f64 }
    else if i == 114 { 1e114f64 }
    else if i == 115 { 1e115f64 }
    else if i == 116 { 1e116f64 }
    else if i == 117 { 1e117f64 }
    else if i == 118 { 1e118f64 }
    else if i == 119 { 1e119f64 }
    else if i == 120 { 1e120f64 }
    else if i == 121 { 1e121f64 }
    else if i == 122 { 1e122f64 }
    else if i == 123 { 1e123f64 }
    else if i == 124 { 1e124f64 }
    else if i == 125 { 1e125f64 }
    else if i == 126 { 1e126f64 }
    else if i == 127 { 1e127f64 }
    else if i == 128 { 1e128f64 }
    else if i == 129 { 1e129f64 }
    else if i == 130 { 1e130f64 }
    else if i == 131 { 1e131f64 }
    else if i == 132 { 1e132f64 }
    else if i == 133 { 1e133f64 }
    else if i == 134 { 1e134f64 }
    else if i == 135 { 1e135f64 }
    else if i == 136 { 1e136f64 }
    else if i == 137 { 1e137f64 }
    else if i == 138 { 1e138f64 }
    else if i == 139 { 1e139f64 }
    else if i == 140 { 1e140f64 }
    else if i == 141 { 1e141f64 }
    else if i == 142 { 1e142f64 }
    else if i == 143 { 1e143f64 }
    else if i == 144 { 1e144f64 }
    else if i == 145 { 1e145f64 }
    else if i == 146 { 1e146f64 }
    else if i == 147 { 1e147f64 }
    else if i == 148 { 1e148f64 }
    else if i == 149 { 1e149f64 }
    else if i == 150 { 1e150f64 }
    else if i == 151 { 1e151f64 }
    else if i == 152 { 1e152f64 }
    else if i == 153 { 1e153f64 }
    else if i == 154 { 1e154f64 }
    else if i == 155 { 1e155f64 }
    else if i == 156 { 1e156f64 }
    else if i == 157 { 1e157f64 }
    else if i == 158 { 1e158f64 }
    else if i == 159 { 1e159f64 }
    else if i == 160 { 1e160f64 }
    else if i == 161 { 1e161f64 }
    else if i == 162 { 1e162f64 }
    else if i == 163 { 1e163f64 }
    else if i == 164 { 1e164f64 }
    else if i == 165 { 1e165f64 }
    else if i == 166 { 1e166f64 }
    else if i == 167 { 1e167f64 }
    else if i == 168 { 1e168f64 }
    else if i == 169 { 1e169f64 }
    else if i == 170 { 1e170f64 }
    else if i == 171 { 1e171f64 }
    else if i == 172 { 1e172f64 }
    else if i == 173 { 1e173f64 }
    else if i == 174 { 1e174f64 }
    else if i == 175 { 1e175f64 }
    else if i == 176 { 1e176f64 }
    else if i == 177 { 1e177f64 }
    else if i == 178 { 1e178f64 }
    else if i == 179 { 1e179f64 }
    else if i == 180 { 1e180f64 }
    else if i == 181 { 1e181f64 }
    else if i == 182 { 1e182f64 }
    else if i == 183 { 1e183f64 }
    else if i == 184 { 1e184f64 }
    else if i == 185 { 1e185f64 }
    else if i == 186 { 1e186f64 }
    else if i == 187 { 1e187f64 }
    else if i == 188 { 1e188f64 }
    else if i == 189 { 1e189f64 }
    else if i == 190 { 1e190f64 }
    else if i == 191 { 1e191f64 }
    else if i == 192 { 1e192f64 }
    else if i == 193 { 1e193f64 }
    else if i == 194 { 1e194f64 }
    else if i == 195 { 1e195f64 }
    else if i == 196 { 1e196f64 }
    else if i == 197 { 1e197f64 }
    else if i == 198 { 1e198f64 }
    else if i == 199 { 1e199f64 }
    else if i == 200 { 1e200f64 }
    else if i == 201 { 1e201f64 }
    else if i == 202 { 1e202f64 }
    else if i == 203 { 1e203f64 }
    else if i == 204 { 1e204f64 }
    else if i == 205 { 1e205f64 }
    else if i == 206 { 1e206f64 }
    else if i == 207 { 1e207f64 }
    else if i == 208 { 1e208f64 }
    else if i == 209 { 1e209f64 }
    else if i == 210 { 1e210f64 }
    else if i == 211 { 1e211f64 }
    else if i == 212 { 1e212f64 }
    else if i == 213 { 1e213f64 }
    else if i == 214 { 1e214f64 }
    else if i == 215 { 1e215f64 }
    else if i == 216 { 1e216f64 }
    else if i == 217 { 1e217f64 }
    else if i == 218 { 1e218f64 }
    else if i == 219 { 1e219f64 }
    else if i == 220 { 1e220f64 }
    else if i == 221 { 1e221f64 }
    else if i == 222 { 1e222f64 }
    else if i == 223 { 1e223f64 }
    else if i == 224 { 1e224f64 }
    else if i == 225 { 1e225f64 }
    else if i == 226 { 1e226f64 }
    else if i == 227 { 1e227f64 }
    else if i == 228 { 1e228f64 }
    else if i == 229 { 1e229f64 }
    else if i == 230 { 1e230f64 }
    else if i == 231 { 1e231f64 }
    else if i == 232 { 1e232f64 }
    else if i == 233 { 1e233f64 }
    else if i == 234 { 1e234f64 }
    else if i == 235 { 1e235f64 }
    else if i == 236 { 1e236f64 }
    else if i == 237 { 1e237f64 }
    else if i == 238 { 1e238f64 }
    else if i == 239 { 1e239f64 }
    else if i == 240 { 1e240f64 }
    else if i == 241 { 1e241f64 }
    else if i == 242 { 1e242f64 }
    else if i == 243 { 1e243f64 }
    else if i == 244 { 1e244f64 }
    else if i == 245 { 1e245f64 }
    else if i == 246 { 1e246f64 }
    else if i == 247 { 1e247f64 }
    else if i == 248 { 1e248f64 }
    else if i == 249 { 1e249f64 }
    else if i == 250 { 1e250f64 }
    else if i == 251 { 1e251f64 }
    else if i == 252 { 1e252f64 }
    else if i == 253 { 1e253f64 }
    else if i == 254 { 1e254f64 }
    else if i == 255 { 1e255f64 }
    else if i == 256 { 1e256f64 }
    else if i == 257 { 1e257f64 }
    else if i == 258 { 1e258f64 }
    else if i == 259 { 1e259f64 }
    else if i == 260 { 1e260f64 }
    else if i == 261 { 1e261f64 }
    else if i == 262 { 1e262f64 }
    else if i == 263 { 1e263f64 }
    else if i == 264 { 1e264f64 }
    else if i == 265 { 1e265f64 }
    else if i == 266 { 1e266f64 }
    else if i == 267 { 1e267f64 }
    else if i == 268 { 1e268f64 }
    else if i == 269 { 1e269f64 }
    else if i == 270 { 1e270f64 }
    else if i == 271 { 1e271f64 }
    else if i == 272 { 1e272f64 }
    else if i == 273 { 1e273f64 }
    else if i == 274 { 1e274f64 }
    else if i == 275 { 1e275f64 }
    else if i == 276 { 1e276f64 }
    else if i == 277 { 1e277f64 }
    else if i == 278 { 1e278f64 }
    else if i == 279 { 1e279f64 }
    else if i == 280 { 1e280f64 }
    else if i == 281 { 1e281f64 }
    else if i == 282 { 1e282f64 }
    else if i == 283 { 1e283f64 }
    else if i == 284 { 1e284f64 }
    else if i == 285 { 1e285f64 }
    else if i == 286 { 1e286f64 }
    else if i == 287 { 1e287f64 }
    else if i == 288 { 1e288f64 }
    else if i == 289 { 1e289f64 }
    else if i == 290 { 1e290f64 }
    else if i == 291 { 1e291f64 }
    else if i == 292 { 1e292f64 }
    else if i == 293 { 1e293f64 }
    else if i == 294 { 1e294f64 }
    else if i == 295 { 1e295f64 }
    else if i == 296 { 1e296f64 }
    else if i == 297 { 1e297f64 }
    else if i == 298 { 1e298f64 }
    else if i == 299 { 1e299f64 }
    else if i == 300 { 1e300f64 }
    else if i == 301 { 1e301f64 }
    else if i == 302 { 1e302f64 }
    else if i == 303 { 1e303f64 }
    else if i == 304 { 1e304f64 }
    else if i == 305 { 1e305f64 }
    else if i == 306 { 1e306f64 }
    else if i == 307 { 1e307f64 }
    else if i == 308 { 1e308f64 }
    else { 0.0f64 }
}

pub open spec fn ffinite(a: f64) -> bool { !fis_inf(a) && !fis_nan(a) }
pub uninterp spec fn fcast(x: u64) -> f64;
pub open spec fn fzero() -> f64 { 0.0f64 }
pub open spec fn fsign(nonneg: bool, f: f64) -> f64 { if nonneg { f } else { fneg(f) } }

#[verifier::external_body]
pub fn vf_from_u64(x: u64) -> (r: f64) ensures r == fcast(x) { x as f64 }
#[verifier::external_body]
pub fn vf_mul(a: f64, b: f64) -> (r: f64) ensures r == fmul(a, b) { a * b }
#[verifier::external_body]
pub fn vf_div(a: f64, b: f64) -> (r: f64) ensures r == fdiv(a, b) { a / b }
#[verifier::external_body]
pub fn vf_neg(a: f64) -> (r: f64) ensures r == fneg(a) { -a }
#[verifier::external_body]
pub fn vf_eq(a: f64, b: f64) -> (r: bool) ensures r == feq(a, b) { a == b }
#[verifier::external_body]
pub fn vf_is_infinite(a: f64) -> (r: bool) ensures r == fis_inf(a) { a.is_infinite() }
#[verifier::external_body]
pub fn vf_is_finite(a: f64) -> (r: bool) ensures r == ffinite(a) { a.is_finite() }
#[verifier::external_body]
pub fn vf_is_nan(a: f64) -> (r: bool) ensures r == fis_nan(a) { a.is_nan() }

/// f scaled by 10^e with at most one rounding inside the table, and by steps
/// of 10^-308 below it; None when the result is no finite double.
pub open spec fn scale(f: f64, e: int) -> Option<f64>
    decreases (if e < 0 { -e } else { 0 }),
{
    if -308 <= e <= 308 {
        if e >= 0 {
            if fis_inf(fmul(f, pow10(e))) { None } else { Some(fmul(f, pow10(e))) }
        } else { Some(fdiv(f, pow10(-e))) }
    }
    else if feq(f, 0.0f64) { Some(f) }
    else if e >= 0 { None }
    else { scale(fdiv(f, 1e308f64), e + 308) }
}

// Facts about IEEE doubles that the range part of C05 rests on (trusted).
pub broadcast axiom fn ax_cast_finite(x: u64) ensures #[trigger] ffinite(fcast(x));
pub broadcast axiom fn ax_mul_no_nan(a: f64, i: int)
    requires ffinite(a), 0 <= i <= 308 ensures !fis_nan(#[trigger] fmul(a, pow10(i)));
pub broadcast axiom fn ax_div_finite(a: f64, i: int)
    requires ffinite(a), 0 <= i <= 308 ensures ffinite(#[trigger] fdiv(a, pow10(i)));
pub broadcast axiom fn ax_div_big_finite(a: f64)
    requires ffinite(a) ensures ffinite(#[trigger] fdiv(a, 1e308f64));
pub broadcast axiom fn ax_neg_finite(a: f64)
    requires ffinite(a) ensures ffinite(#[trigger] fneg(a));

pub proof fn lemma_scale_finite(f: f64, e: int)
    requires ffinite(f),
    ensures scale(f, e) is Some ==> ffinite(scale(f, e)->0),
    decreases (if e < 0 { -e } else { 0 }),
{
    broadcast use {ax_mul_no_nan, ax_div_finite, ax_div_big_finite};
    if -308 <= e <= 308 { }
    else if feq(f, 0.0f64) { }
    else if e >= 0 { }
    else { lemma_scale_finite(fdiv(f, 1e308f64), e + 308); }
}
