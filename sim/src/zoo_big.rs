//! Derived types of unusual shapes: many fields, many variants, names that could collide with
//! those of generated code, every form of discriminant literal, generics, recursion, nesting.
use crate::tree::*;
use crate::zoo::*;
use crate::tys;
use oct::decode::Decode;
use oct::encode::{Encode, SizedEncode};
use oct::error::{GenericDecodeError, GenericEncodeError};
use oct::{SizedSlice, SizedStr};
use std::marker::PhantomData;
use std::net::{Ipv4Addr, SocketAddrV6};
use std::num::NonZero;
use std::ops::Bound;
use std::time::{Duration, SystemTime};
use crate::{z_enum, z_struct};

#[derive(Encode, Decode, SizedEncode)] pub struct DHyg { r#type: u8, stream: u16, value0: u32, value1: bool, value: f32, this: NonZero<u8>, discriminant: usize, output: i8, input: i128, total_size: Option<u16>, current_size: [u8; 3], r#match: f64, index: isize, _x: (), fmt: u8, v: SizedStr<3> }
z_struct!(DHyg { r#type f0: u8, stream f1: u16, value0 f2: u32, value1 f3: bool, value f4: f32, this f5: NonZero<u8>, discriminant f6: usize, output f7: i8, input f8: i128, total_size f9: Option<u16>, current_size f10: [u8; 3], r#match f11: f64, index f12: isize, _x f13: (), fmt f14: u8, v f15: SizedStr<3> });
#[derive(Encode, Decode, SizedEncode)] pub struct DTup14(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, f32, f32, usize);
z_struct!(DTup14 { 0 f0: u8, 1 f1: u16, 2 f2: u32, 3 f3: u64, 4 f4: u128, 5 f5: i8, 6 f6: i16, 7 f7: i32, 8 f8: i64, 9 f9: i128, 10 f10: bool, 11 f11: f32, 12 f12: f32, 13 f13: usize });
#[repr(C)] #[derive(Encode, Decode, SizedEncode)] pub struct DSwap { z: u16, y: i16, x: u16, w: i16, v: u16, u: i16, t: u16, s: i16, r: u16, q: i16, p: u16, o: i16 }
z_struct!(DSwap { z f0: u16, y f1: i16, x f2: u16, w f3: i16, v f4: u16, u f5: i16, t f6: u16, s f7: i16, r f8: u16, q f9: i16, p f10: u16, o f11: i16 });
/// Documented.
#[repr(transparent)] #[derive(Encode, Decode, SizedEncode)] pub struct DTransparent(SizedSlice<u16, 3>);
z_struct!(DTransparent { 0 f0: SizedSlice<u16, 3> });
#[derive(Encode, Decode, SizedEncode)] pub struct DSame { a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, a10: u8, a11: u8, a12: u8, a13: u8, a14: u8, a15: u8, a16: u8, a17: u8, a18: u8, a19: u8 }
z_struct!(DSame { a0 f0: u8, a1 f1: u8, a2 f2: u8, a3 f3: u8, a4 f4: u8, a5 f5: u8, a6 f6: u8, a7 f7: u8, a8 f8: u8, a9 f9: u8, a10 f10: u8, a11 f11: u8, a12 f12: u8, a13 f13: u8, a14 f14: u8, a15 f15: u8, a16 f16: u8, a17 f17: u8, a18 f18: u8, a19 f19: u8 });
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum EMany { V0, V1(u8), V2 { x: u16 }, V3, V4(u8, u32), V5 { a: Option<u8>, b: f32 }, V6, V7(SizedStr<4>) = 100, V8, V9(NonZero<u16>), V10, V11(u8), V12 { x: u16 }, V13, V14(u8, u32), V15 { a: Option<u8>, b: f32 }, V16, V17(SizedStr<4>), V18, V19(NonZero<u16>), V20 = 30, V21(u8), V22 { x: u16 }, V23, V24(u8, u32), V25 { a: Option<u8>, b: f32 }, V26, V27(SizedStr<4>), V28, V29(NonZero<u16>), V30, V31(u8), V32 { x: u16 }, V33, V34(u8, u32), V35 { a: Option<u8>, b: f32 }, V36 = 250, V37(SizedStr<4>), V38, V39(NonZero<u16>) }
z_enum!(EMany, U8, 0: 0 => V0 {  }, 1: 1 => V1 { 0 g0: u8 }, 2: 2 => V2 { x g0: u16 }, 3: 3 => V3 {  }, 4: 4 => V4 { 0 g0: u8, 1 g1: u32 }, 5: 5 => V5 { a g0: Option<u8>, b g1: f32 }, 6: 6 => V6 {  }, 7: 100 => V7 { 0 g0: SizedStr<4> }, 8: 101 => V8 {  }, 9: 102 => V9 { 0 g0: NonZero<u16> }, 10: 103 => V10 {  }, 11: 104 => V11 { 0 g0: u8 }, 12: 105 => V12 { x g0: u16 }, 13: 106 => V13 {  }, 14: 107 => V14 { 0 g0: u8, 1 g1: u32 }, 15: 108 => V15 { a g0: Option<u8>, b g1: f32 }, 16: 109 => V16 {  }, 17: 110 => V17 { 0 g0: SizedStr<4> }, 18: 111 => V18 {  }, 19: 112 => V19 { 0 g0: NonZero<u16> }, 20: 30 => V20 {  }, 21: 31 => V21 { 0 g0: u8 }, 22: 32 => V22 { x g0: u16 }, 23: 33 => V23 {  }, 24: 34 => V24 { 0 g0: u8, 1 g1: u32 }, 25: 35 => V25 { a g0: Option<u8>, b g1: f32 }, 26: 36 => V26 {  }, 27: 37 => V27 { 0 g0: SizedStr<4> }, 28: 38 => V28 {  }, 29: 39 => V29 { 0 g0: NonZero<u16> }, 30: 40 => V30 {  }, 31: 41 => V31 { 0 g0: u8 }, 32: 42 => V32 { x g0: u16 }, 33: 43 => V33 {  }, 34: 44 => V34 { 0 g0: u8, 1 g1: u32 }, 35: 45 => V35 { a g0: Option<u8>, b g1: f32 }, 36: 250 => V36 {  }, 37: 251 => V37 { 0 g0: SizedStr<4> }, 38: 252 => V38 {  }, 39: 253 => V39 { 0 g0: NonZero<u16> });
#[derive(Encode, Decode, SizedEncode)] #[repr(u16)] pub enum EHuge { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49(u8), V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99(u8), V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149(u8), V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199(u8), V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249(u8), V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299(u8) }
z_enum!(EHuge, U16, 0: 0 => V0 {  }, 1: 1 => V1 {  }, 2: 2 => V2 {  }, 3: 3 => V3 {  }, 4: 4 => V4 {  }, 5: 5 => V5 {  }, 6: 6 => V6 {  }, 7: 7 => V7 {  }, 8: 8 => V8 {  }, 9: 9 => V9 {  }, 10: 10 => V10 {  }, 11: 11 => V11 {  }, 12: 12 => V12 {  }, 13: 13 => V13 {  }, 14: 14 => V14 {  }, 15: 15 => V15 {  }, 16: 16 => V16 {  }, 17: 17 => V17 {  }, 18: 18 => V18 {  }, 19: 19 => V19 {  }, 20: 20 => V20 {  }, 21: 21 => V21 {  }, 22: 22 => V22 {  }, 23: 23 => V23 {  }, 24: 24 => V24 {  }, 25: 25 => V25 {  }, 26: 26 => V26 {  }, 27: 27 => V27 {  }, 28: 28 => V28 {  }, 29: 29 => V29 {  }, 30: 30 => V30 {  }, 31: 31 => V31 {  }, 32: 32 => V32 {  }, 33: 33 => V33 {  }, 34: 34 => V34 {  }, 35: 35 => V35 {  }, 36: 36 => V36 {  }, 37: 37 => V37 {  }, 38: 38 => V38 {  }, 39: 39 => V39 {  }, 40: 40 => V40 {  }, 41: 41 => V41 {  }, 42: 42 => V42 {  }, 43: 43 => V43 {  }, 44: 44 => V44 {  }, 45: 45 => V45 {  }, 46: 46 => V46 {  }, 47: 47 => V47 {  }, 48: 48 => V48 {  }, 49: 49 => V49 { 0 g0: u8 }, 50: 50 => V50 {  }, 51: 51 => V51 {  }, 52: 52 => V52 {  }, 53: 53 => V53 {  }, 54: 54 => V54 {  }, 55: 55 => V55 {  }, 56: 56 => V56 {  }, 57: 57 => V57 {  }, 58: 58 => V58 {  }, 59: 59 => V59 {  }, 60: 60 => V60 {  }, 61: 61 => V61 {  }, 62: 62 => V62 {  }, 63: 63 => V63 {  }, 64: 64 => V64 {  }, 65: 65 => V65 {  }, 66: 66 => V66 {  }, 67: 67 => V67 {  }, 68: 68 => V68 {  }, 69: 69 => V69 {  }, 70: 70 => V70 {  }, 71: 71 => V71 {  }, 72: 72 => V72 {  }, 73: 73 => V73 {  }, 74: 74 => V74 {  }, 75: 75 => V75 {  }, 76: 76 => V76 {  }, 77: 77 => V77 {  }, 78: 78 => V78 {  }, 79: 79 => V79 {  }, 80: 80 => V80 {  }, 81: 81 => V81 {  }, 82: 82 => V82 {  }, 83: 83 => V83 {  }, 84: 84 => V84 {  }, 85: 85 => V85 {  }, 86: 86 => V86 {  }, 87: 87 => V87 {  }, 88: 88 => V88 {  }, 89: 89 => V89 {  }, 90: 90 => V90 {  }, 91: 91 => V91 {  }, 92: 92 => V92 {  }, 93: 93 => V93 {  }, 94: 94 => V94 {  }, 95: 95 => V95 {  }, 96: 96 => V96 {  }, 97: 97 => V97 {  }, 98: 98 => V98 {  }, 99: 99 => V99 { 0 g0: u8 }, 100: 100 => V100 {  }, 101: 101 => V101 {  }, 102: 102 => V102 {  }, 103: 103 => V103 {  }, 104: 104 => V104 {  }, 105: 105 => V105 {  }, 106: 106 => V106 {  }, 107: 107 => V107 {  }, 108: 108 => V108 {  }, 109: 109 => V109 {  }, 110: 110 => V110 {  }, 111: 111 => V111 {  }, 112: 112 => V112 {  }, 113: 113 => V113 {  }, 114: 114 => V114 {  }, 115: 115 => V115 {  }, 116: 116 => V116 {  }, 117: 117 => V117 {  }, 118: 118 => V118 {  }, 119: 119 => V119 {  }, 120: 120 => V120 {  }, 121: 121 => V121 {  }, 122: 122 => V122 {  }, 123: 123 => V123 {  }, 124: 124 => V124 {  }, 125: 125 => V125 {  }, 126: 126 => V126 {  }, 127: 127 => V127 {  }, 128: 128 => V128 {  }, 129: 129 => V129 {  }, 130: 130 => V130 {  }, 131: 131 => V131 {  }, 132: 132 => V132 {  }, 133: 133 => V133 {  }, 134: 134 => V134 {  }, 135: 135 => V135 {  }, 136: 136 => V136 {  }, 137: 137 => V137 {  }, 138: 138 => V138 {  }, 139: 139 => V139 {  }, 140: 140 => V140 {  }, 141: 141 => V141 {  }, 142: 142 => V142 {  }, 143: 143 => V143 {  }, 144: 144 => V144 {  }, 145: 145 => V145 {  }, 146: 146 => V146 {  }, 147: 147 => V147 {  }, 148: 148 => V148 {  }, 149: 149 => V149 { 0 g0: u8 }, 150: 150 => V150 {  }, 151: 151 => V151 {  }, 152: 152 => V152 {  }, 153: 153 => V153 {  }, 154: 154 => V154 {  }, 155: 155 => V155 {  }, 156: 156 => V156 {  }, 157: 157 => V157 {  }, 158: 158 => V158 {  }, 159: 159 => V159 {  }, 160: 160 => V160 {  }, 161: 161 => V161 {  }, 162: 162 => V162 {  }, 163: 163 => V163 {  }, 164: 164 => V164 {  }, 165: 165 => V165 {  }, 166: 166 => V166 {  }, 167: 167 => V167 {  }, 168: 168 => V168 {  }, 169: 169 => V169 {  }, 170: 170 => V170 {  }, 171: 171 => V171 {  }, 172: 172 => V172 {  }, 173: 173 => V173 {  }, 174: 174 => V174 {  }, 175: 175 => V175 {  }, 176: 176 => V176 {  }, 177: 177 => V177 {  }, 178: 178 => V178 {  }, 179: 179 => V179 {  }, 180: 180 => V180 {  }, 181: 181 => V181 {  }, 182: 182 => V182 {  }, 183: 183 => V183 {  }, 184: 184 => V184 {  }, 185: 185 => V185 {  }, 186: 186 => V186 {  }, 187: 187 => V187 {  }, 188: 188 => V188 {  }, 189: 189 => V189 {  }, 190: 190 => V190 {  }, 191: 191 => V191 {  }, 192: 192 => V192 {  }, 193: 193 => V193 {  }, 194: 194 => V194 {  }, 195: 195 => V195 {  }, 196: 196 => V196 {  }, 197: 197 => V197 {  }, 198: 198 => V198 {  }, 199: 199 => V199 { 0 g0: u8 }, 200: 200 => V200 {  }, 201: 201 => V201 {  }, 202: 202 => V202 {  }, 203: 203 => V203 {  }, 204: 204 => V204 {  }, 205: 205 => V205 {  }, 206: 206 => V206 {  }, 207: 207 => V207 {  }, 208: 208 => V208 {  }, 209: 209 => V209 {  }, 210: 210 => V210 {  }, 211: 211 => V211 {  }, 212: 212 => V212 {  }, 213: 213 => V213 {  }, 214: 214 => V214 {  }, 215: 215 => V215 {  }, 216: 216 => V216 {  }, 217: 217 => V217 {  }, 218: 218 => V218 {  }, 219: 219 => V219 {  }, 220: 220 => V220 {  }, 221: 221 => V221 {  }, 222: 222 => V222 {  }, 223: 223 => V223 {  }, 224: 224 => V224 {  }, 225: 225 => V225 {  }, 226: 226 => V226 {  }, 227: 227 => V227 {  }, 228: 228 => V228 {  }, 229: 229 => V229 {  }, 230: 230 => V230 {  }, 231: 231 => V231 {  }, 232: 232 => V232 {  }, 233: 233 => V233 {  }, 234: 234 => V234 {  }, 235: 235 => V235 {  }, 236: 236 => V236 {  }, 237: 237 => V237 {  }, 238: 238 => V238 {  }, 239: 239 => V239 {  }, 240: 240 => V240 {  }, 241: 241 => V241 {  }, 242: 242 => V242 {  }, 243: 243 => V243 {  }, 244: 244 => V244 {  }, 245: 245 => V245 {  }, 246: 246 => V246 {  }, 247: 247 => V247 {  }, 248: 248 => V248 {  }, 249: 249 => V249 { 0 g0: u8 }, 250: 250 => V250 {  }, 251: 251 => V251 {  }, 252: 252 => V252 {  }, 253: 253 => V253 {  }, 254: 254 => V254 {  }, 255: 255 => V255 {  }, 256: 256 => V256 {  }, 257: 257 => V257 {  }, 258: 258 => V258 {  }, 259: 259 => V259 {  }, 260: 260 => V260 {  }, 261: 261 => V261 {  }, 262: 262 => V262 {  }, 263: 263 => V263 {  }, 264: 264 => V264 {  }, 265: 265 => V265 {  }, 266: 266 => V266 {  }, 267: 267 => V267 {  }, 268: 268 => V268 {  }, 269: 269 => V269 {  }, 270: 270 => V270 {  }, 271: 271 => V271 {  }, 272: 272 => V272 {  }, 273: 273 => V273 {  }, 274: 274 => V274 {  }, 275: 275 => V275 {  }, 276: 276 => V276 {  }, 277: 277 => V277 {  }, 278: 278 => V278 {  }, 279: 279 => V279 {  }, 280: 280 => V280 {  }, 281: 281 => V281 {  }, 282: 282 => V282 {  }, 283: 283 => V283 {  }, 284: 284 => V284 {  }, 285: 285 => V285 {  }, 286: 286 => V286 {  }, 287: 287 => V287 {  }, 288: 288 => V288 {  }, 289: 289 => V289 {  }, 290: 290 => V290 {  }, 291: 291 => V291 {  }, 292: 292 => V292 {  }, 293: 293 => V293 {  }, 294: 294 => V294 {  }, 295: 295 => V295 {  }, 296: 296 => V296 {  }, 297: 297 => V297 {  }, 298: 298 => V298 {  }, 299: 299 => V299 { 0 g0: u8 });
#[derive(Encode, Decode, SizedEncode)] pub enum EDefMany { V0, V1, V2, V3(NonZero<u16>), V4 { x: u16 }, V5 { a: Option<u8>, b: f32 }, V6, V7(u8), V8(u8, u32), V9(SizedStr<4>), V10, V11, V12, V13(NonZero<u16>), V14 { x: u16 }, V15 { a: Option<u8>, b: f32 }, V16, V17(u8), V18(u8, u32), V19(SizedStr<4>), V20, V21, V22, V23(NonZero<u16>), V24 { x: u16 }, V25 { a: Option<u8>, b: f32 }, V26, V27(u8), V28(u8, u32), V29(SizedStr<4>), V30, V31, V32, V33(NonZero<u16>), V34 { x: u16 }, V35 { a: Option<u8>, b: f32 }, V36, V37(u8), V38(u8, u32), V39(SizedStr<4>), V40, V41, V42, V43(NonZero<u16>), V44 { x: u16 }, V45 { a: Option<u8>, b: f32 }, V46, V47(u8), V48(u8, u32), V49(SizedStr<4>), V50, V51, V52, V53(NonZero<u16>), V54 { x: u16 }, V55 { a: Option<u8>, b: f32 }, V56, V57(u8), V58(u8, u32), V59(SizedStr<4>) }
z_enum!(EDefMany, Isize, 0: 0 => V0 {  }, 1: 1 => V1 {  }, 2: 2 => V2 {  }, 3: 3 => V3 { 0 g0: NonZero<u16> }, 4: 4 => V4 { x g0: u16 }, 5: 5 => V5 { a g0: Option<u8>, b g1: f32 }, 6: 6 => V6 {  }, 7: 7 => V7 { 0 g0: u8 }, 8: 8 => V8 { 0 g0: u8, 1 g1: u32 }, 9: 9 => V9 { 0 g0: SizedStr<4> }, 10: 10 => V10 {  }, 11: 11 => V11 {  }, 12: 12 => V12 {  }, 13: 13 => V13 { 0 g0: NonZero<u16> }, 14: 14 => V14 { x g0: u16 }, 15: 15 => V15 { a g0: Option<u8>, b g1: f32 }, 16: 16 => V16 {  }, 17: 17 => V17 { 0 g0: u8 }, 18: 18 => V18 { 0 g0: u8, 1 g1: u32 }, 19: 19 => V19 { 0 g0: SizedStr<4> }, 20: 20 => V20 {  }, 21: 21 => V21 {  }, 22: 22 => V22 {  }, 23: 23 => V23 { 0 g0: NonZero<u16> }, 24: 24 => V24 { x g0: u16 }, 25: 25 => V25 { a g0: Option<u8>, b g1: f32 }, 26: 26 => V26 {  }, 27: 27 => V27 { 0 g0: u8 }, 28: 28 => V28 { 0 g0: u8, 1 g1: u32 }, 29: 29 => V29 { 0 g0: SizedStr<4> }, 30: 30 => V30 {  }, 31: 31 => V31 {  }, 32: 32 => V32 {  }, 33: 33 => V33 { 0 g0: NonZero<u16> }, 34: 34 => V34 { x g0: u16 }, 35: 35 => V35 { a g0: Option<u8>, b g1: f32 }, 36: 36 => V36 {  }, 37: 37 => V37 { 0 g0: u8 }, 38: 38 => V38 { 0 g0: u8, 1 g1: u32 }, 39: 39 => V39 { 0 g0: SizedStr<4> }, 40: 40 => V40 {  }, 41: 41 => V41 {  }, 42: 42 => V42 {  }, 43: 43 => V43 { 0 g0: NonZero<u16> }, 44: 44 => V44 { x g0: u16 }, 45: 45 => V45 { a g0: Option<u8>, b g1: f32 }, 46: 46 => V46 {  }, 47: 47 => V47 { 0 g0: u8 }, 48: 48 => V48 { 0 g0: u8, 1 g1: u32 }, 49: 49 => V49 { 0 g0: SizedStr<4> }, 50: 50 => V50 {  }, 51: 51 => V51 {  }, 52: 52 => V52 {  }, 53: 53 => V53 { 0 g0: NonZero<u16> }, 54: 54 => V54 { x g0: u16 }, 55: 55 => V55 { a g0: Option<u8>, b g1: f32 }, 56: 56 => V56 {  }, 57: 57 => V57 { 0 g0: u8 }, 58: 58 => V58 { 0 g0: u8, 1 g1: u32 }, 59: 59 => V59 { 0 g0: SizedStr<4> });
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum EByte { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255 }
z_enum!(EByte, U8, 0: 0 => V0 {  }, 1: 1 => V1 {  }, 2: 2 => V2 {  }, 3: 3 => V3 {  }, 4: 4 => V4 {  }, 5: 5 => V5 {  }, 6: 6 => V6 {  }, 7: 7 => V7 {  }, 8: 8 => V8 {  }, 9: 9 => V9 {  }, 10: 10 => V10 {  }, 11: 11 => V11 {  }, 12: 12 => V12 {  }, 13: 13 => V13 {  }, 14: 14 => V14 {  }, 15: 15 => V15 {  }, 16: 16 => V16 {  }, 17: 17 => V17 {  }, 18: 18 => V18 {  }, 19: 19 => V19 {  }, 20: 20 => V20 {  }, 21: 21 => V21 {  }, 22: 22 => V22 {  }, 23: 23 => V23 {  }, 24: 24 => V24 {  }, 25: 25 => V25 {  }, 26: 26 => V26 {  }, 27: 27 => V27 {  }, 28: 28 => V28 {  }, 29: 29 => V29 {  }, 30: 30 => V30 {  }, 31: 31 => V31 {  }, 32: 32 => V32 {  }, 33: 33 => V33 {  }, 34: 34 => V34 {  }, 35: 35 => V35 {  }, 36: 36 => V36 {  }, 37: 37 => V37 {  }, 38: 38 => V38 {  }, 39: 39 => V39 {  }, 40: 40 => V40 {  }, 41: 41 => V41 {  }, 42: 42 => V42 {  }, 43: 43 => V43 {  }, 44: 44 => V44 {  }, 45: 45 => V45 {  }, 46: 46 => V46 {  }, 47: 47 => V47 {  }, 48: 48 => V48 {  }, 49: 49 => V49 {  }, 50: 50 => V50 {  }, 51: 51 => V51 {  }, 52: 52 => V52 {  }, 53: 53 => V53 {  }, 54: 54 => V54 {  }, 55: 55 => V55 {  }, 56: 56 => V56 {  }, 57: 57 => V57 {  }, 58: 58 => V58 {  }, 59: 59 => V59 {  }, 60: 60 => V60 {  }, 61: 61 => V61 {  }, 62: 62 => V62 {  }, 63: 63 => V63 {  }, 64: 64 => V64 {  }, 65: 65 => V65 {  }, 66: 66 => V66 {  }, 67: 67 => V67 {  }, 68: 68 => V68 {  }, 69: 69 => V69 {  }, 70: 70 => V70 {  }, 71: 71 => V71 {  }, 72: 72 => V72 {  }, 73: 73 => V73 {  }, 74: 74 => V74 {  }, 75: 75 => V75 {  }, 76: 76 => V76 {  }, 77: 77 => V77 {  }, 78: 78 => V78 {  }, 79: 79 => V79 {  }, 80: 80 => V80 {  }, 81: 81 => V81 {  }, 82: 82 => V82 {  }, 83: 83 => V83 {  }, 84: 84 => V84 {  }, 85: 85 => V85 {  }, 86: 86 => V86 {  }, 87: 87 => V87 {  }, 88: 88 => V88 {  }, 89: 89 => V89 {  }, 90: 90 => V90 {  }, 91: 91 => V91 {  }, 92: 92 => V92 {  }, 93: 93 => V93 {  }, 94: 94 => V94 {  }, 95: 95 => V95 {  }, 96: 96 => V96 {  }, 97: 97 => V97 {  }, 98: 98 => V98 {  }, 99: 99 => V99 {  }, 100: 100 => V100 {  }, 101: 101 => V101 {  }, 102: 102 => V102 {  }, 103: 103 => V103 {  }, 104: 104 => V104 {  }, 105: 105 => V105 {  }, 106: 106 => V106 {  }, 107: 107 => V107 {  }, 108: 108 => V108 {  }, 109: 109 => V109 {  }, 110: 110 => V110 {  }, 111: 111 => V111 {  }, 112: 112 => V112 {  }, 113: 113 => V113 {  }, 114: 114 => V114 {  }, 115: 115 => V115 {  }, 116: 116 => V116 {  }, 117: 117 => V117 {  }, 118: 118 => V118 {  }, 119: 119 => V119 {  }, 120: 120 => V120 {  }, 121: 121 => V121 {  }, 122: 122 => V122 {  }, 123: 123 => V123 {  }, 124: 124 => V124 {  }, 125: 125 => V125 {  }, 126: 126 => V126 {  }, 127: 127 => V127 {  }, 128: 128 => V128 {  }, 129: 129 => V129 {  }, 130: 130 => V130 {  }, 131: 131 => V131 {  }, 132: 132 => V132 {  }, 133: 133 => V133 {  }, 134: 134 => V134 {  }, 135: 135 => V135 {  }, 136: 136 => V136 {  }, 137: 137 => V137 {  }, 138: 138 => V138 {  }, 139: 139 => V139 {  }, 140: 140 => V140 {  }, 141: 141 => V141 {  }, 142: 142 => V142 {  }, 143: 143 => V143 {  }, 144: 144 => V144 {  }, 145: 145 => V145 {  }, 146: 146 => V146 {  }, 147: 147 => V147 {  }, 148: 148 => V148 {  }, 149: 149 => V149 {  }, 150: 150 => V150 {  }, 151: 151 => V151 {  }, 152: 152 => V152 {  }, 153: 153 => V153 {  }, 154: 154 => V154 {  }, 155: 155 => V155 {  }, 156: 156 => V156 {  }, 157: 157 => V157 {  }, 158: 158 => V158 {  }, 159: 159 => V159 {  }, 160: 160 => V160 {  }, 161: 161 => V161 {  }, 162: 162 => V162 {  }, 163: 163 => V163 {  }, 164: 164 => V164 {  }, 165: 165 => V165 {  }, 166: 166 => V166 {  }, 167: 167 => V167 {  }, 168: 168 => V168 {  }, 169: 169 => V169 {  }, 170: 170 => V170 {  }, 171: 171 => V171 {  }, 172: 172 => V172 {  }, 173: 173 => V173 {  }, 174: 174 => V174 {  }, 175: 175 => V175 {  }, 176: 176 => V176 {  }, 177: 177 => V177 {  }, 178: 178 => V178 {  }, 179: 179 => V179 {  }, 180: 180 => V180 {  }, 181: 181 => V181 {  }, 182: 182 => V182 {  }, 183: 183 => V183 {  }, 184: 184 => V184 {  }, 185: 185 => V185 {  }, 186: 186 => V186 {  }, 187: 187 => V187 {  }, 188: 188 => V188 {  }, 189: 189 => V189 {  }, 190: 190 => V190 {  }, 191: 191 => V191 {  }, 192: 192 => V192 {  }, 193: 193 => V193 {  }, 194: 194 => V194 {  }, 195: 195 => V195 {  }, 196: 196 => V196 {  }, 197: 197 => V197 {  }, 198: 198 => V198 {  }, 199: 199 => V199 {  }, 200: 200 => V200 {  }, 201: 201 => V201 {  }, 202: 202 => V202 {  }, 203: 203 => V203 {  }, 204: 204 => V204 {  }, 205: 205 => V205 {  }, 206: 206 => V206 {  }, 207: 207 => V207 {  }, 208: 208 => V208 {  }, 209: 209 => V209 {  }, 210: 210 => V210 {  }, 211: 211 => V211 {  }, 212: 212 => V212 {  }, 213: 213 => V213 {  }, 214: 214 => V214 {  }, 215: 215 => V215 {  }, 216: 216 => V216 {  }, 217: 217 => V217 {  }, 218: 218 => V218 {  }, 219: 219 => V219 {  }, 220: 220 => V220 {  }, 221: 221 => V221 {  }, 222: 222 => V222 {  }, 223: 223 => V223 {  }, 224: 224 => V224 {  }, 225: 225 => V225 {  }, 226: 226 => V226 {  }, 227: 227 => V227 {  }, 228: 228 => V228 {  }, 229: 229 => V229 {  }, 230: 230 => V230 {  }, 231: 231 => V231 {  }, 232: 232 => V232 {  }, 233: 233 => V233 {  }, 234: 234 => V234 {  }, 235: 235 => V235 {  }, 236: 236 => V236 {  }, 237: 237 => V237 {  }, 238: 238 => V238 {  }, 239: 239 => V239 {  }, 240: 240 => V240 {  }, 241: 241 => V241 {  }, 242: 242 => V242 {  }, 243: 243 => V243 {  }, 244: 244 => V244 {  }, 245: 245 => V245 {  }, 246: 246 => V246 {  }, 247: 247 => V247 {  }, 248: 248 => V248 {  }, 249: 249 => V249 {  }, 250: 250 => V250 {  }, 251: 251 => V251 {  }, 252: 252 => V252 {  }, 253: 253 => V253 {  }, 254: 254 => V254 {  }, 255: 255 => V255 {  });
#[derive(Encode, Decode, SizedEncode)] #[repr(u32)] pub enum EWide { Unit, Tup(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, f32, f32, usize), Named { stream: u8, value0: u16, value1: u8, value2: u32, value: f32, this: bool, discriminant: usize, output: i8, input: NonZero<u8>, r#type: u16, total_size: Option<u8>, current_size: isize, a: u64 } = 0xABCDEF, Rev(usize, f32, f32, bool, i128, i64, i32, i16, i8, u128, u64, u32, u16, u8) }
z_enum!(EWide, U32, 0: 0 => Unit {  }, 1: 1 => Tup { 0 g0: u8, 1 g1: u16, 2 g2: u32, 3 g3: u64, 4 g4: u128, 5 g5: i8, 6 g6: i16, 7 g7: i32, 8 g8: i64, 9 g9: i128, 10 g10: bool, 11 g11: f32, 12 g12: f32, 13 g13: usize }, 2: 11259375 => Named { stream g0: u8, value0 g1: u16, value1 g2: u8, value2 g3: u32, value g4: f32, this g5: bool, discriminant g6: usize, output g7: i8, input g8: NonZero<u8>, r#type g9: u16, total_size g10: Option<u8>, current_size g11: isize, a g12: u64 }, 3: 11259376 => Rev { 0 g0: usize, 1 g1: f32, 2 g2: f32, 3 g3: bool, 4 g4: i128, 5 g5: i64, 6 g6: i32, 7 g7: i16, 8 g8: i8, 9 g9: u128, 10 g10: u64, 11 g11: u32, 12 g12: u16, 13 g13: u8 });
#[derive(Encode, Decode, SizedEncode)] #[repr(u16)] pub enum ELit { Hex = 0x1F, Bin = 0b1010_1010, Oct = 0o17, Dec(u8) = 1_000, Suf = 5u16, HexSuf(bool) = 0xFF_u16, After, Zero = 0, One, Big = 65_535 }
z_enum!(ELit, U16, 0: 31 => Hex {  }, 1: 170 => Bin {  }, 2: 15 => Oct {  }, 3: 1000 => Dec { 0 g0: u8 }, 4: 5 => Suf {  }, 5: 255 => HexSuf { 0 g0: bool }, 6: 256 => After {  }, 7: 0 => Zero {  }, 8: 1 => One {  }, 9: 65535 => Big {  });
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum EMaxFirst { A(u128, u128), B(u8), C }
z_enum!(EMaxFirst, U8, 0: 0 => A { 0 g0: u128, 1 g1: u128 }, 1: 1 => B { 0 g0: u8 }, 2: 2 => C {  });
#[derive(Encode, Decode, SizedEncode)] #[repr(u16)] pub enum EMaxMid { A, B(SizedStr<40>), C(u8) }
z_enum!(EMaxMid, U16, 0: 0 => A {  }, 1: 1 => B { 0 g0: SizedStr<40> }, 2: 2 => C { 0 g0: u8 });
#[derive(Encode, Decode, SizedEncode)] #[repr(i32)] pub enum EMaxLast { A, B(u64), C { a: u64, b: u8 } }
z_enum!(EMaxLast, I32, 0: 0 => A {  }, 1: 1 => B { 0 g0: u64 }, 2: 2 => C { a g0: u64, b g1: u8 });
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum EMaxSum { A(u64), B(u16, u16, u16, u16, u16), C(u32, u32) }
z_enum!(EMaxSum, U8, 0: 0 => A { 0 g0: u64 }, 1: 1 => B { 0 g0: u16, 1 g1: u16, 2 g2: u16, 3 g3: u16, 4 g4: u16 }, 2: 2 => C { 0 g0: u32, 1 g1: u32 });
#[derive(Encode, Decode, SizedEncode)] #[repr(u8)] pub enum E255 { Last(u16) = 255 }
z_enum!(E255, U8, 0: 255 => Last { 0 g0: u16 });
#[derive(Encode, Decode, SizedEncode)] #[repr(i64)] pub enum EI64b { A = 0x7FFF_FFFF_FFFF_FFFE, B(u8), C = 0 }
z_enum!(EI64b, I64, 0: 9223372036854775806u128 => A {  }, 1: 9223372036854775807u128 => B { 0 g0: u8 }, 2: 0 => C {  });
#[derive(Encode, Decode, SizedEncode)] #[repr(u128)] pub enum EU128b { A = 340282366920938463463374607431768211454, B(u8) = 340282366920938463463374607431768211455, C = 0 }
z_enum!(EU128b, U128, 0: 340282366920938463463374607431768211454u128 => A {  }, 1: 340282366920938463463374607431768211455u128 => B { 0 g0: u8 }, 2: 0 => C {  });
#[derive(Encode, Decode, SizedEncode)]
/// Documentation, attributes and fields that are not there.
#[allow(dead_code)]
#[repr(u8)]
#[must_use]
pub enum EAttr {
    /// Documented.
    #[doc = "twice"] A = 2,
    #[cfg(any())] Gone(u64),
    #[allow(unused)] B(#[doc = "field"] u8, #[cfg(any())] u128, #[cfg(all())] u16),
    #[cfg(all())] C { #[cfg(any())] gone: u8, /** here */ here: f32 },
}
z_enum!(EAttr, U8, 0: 2 => A {}, 1: 3 => B { 0 a: u8, 1 b: u16 }, 2: 4 => C { here a: f32 });
#[derive(Encode, Decode, SizedEncode)] pub struct DAttr { #[cfg(any())] gone: u64, a: u8, #[cfg(all())] b: u16, #[doc = "last"] c: self::inner::Vis }
z_struct!(DAttr { a a: u8, b b: u16, c c: inner::Vis });
pub mod inner {
    use super::*;
    #[derive(::oct::encode::Encode, ::oct::decode::Decode, ::oct::encode::SizedEncode)] pub struct Vis { pub(super) a: u8, pub(in crate::zoo_big) b: self::Deep, c: super::EMaxSum }
    z_struct!(Vis { a a: u8, b b: Deep, c c: EMaxSum });
    #[derive(Encode, Decode, SizedEncode)] pub enum Deep { A(u8), B { c: crate::zoo_big::EMaxFirst } }
    z_enum!(Deep, Isize, 0: 0 => A { 0 a: u8 }, 1: 1 => B { c a: EMaxFirst });
}
// Names of the prelude and of the library mean something else here.
pub mod shadow {
    #![allow(dead_code, non_camel_case_types)]
    use crate::tree::*;
    use crate::zoo::Zoo;
    use crate::{z_enum, z_struct};
    pub struct Ok; pub struct Err; pub struct Some; pub struct Into; pub struct Result; pub struct Input; pub struct Output; pub struct Infallible; pub struct GenericDecodeError; pub struct EnumDecodeError; pub struct SizedEncode; pub struct Option; pub mod core {} pub mod std {}
    #[derive(::oct::encode::Encode, ::oct::decode::Decode, ::oct::encode::SizedEncode)] pub struct DShadow { a: u8, b: ::std::option::Option<u16>, c: EShadow }
    z_struct!(DShadow { a a: u8, b b: ::std::option::Option<u16>, c c: EShadow });
    #[derive(::oct::encode::Encode, ::oct::decode::Decode, ::oct::encode::SizedEncode)] #[repr(u16)] pub enum EShadow { Ok(u8) = 4, Err { e: f32 }, Some, None(usize) = 0x101 }
    z_enum!(EShadow, U16, 0: 4 => Ok { 0 a: u8 }, 1: 5 => Err { e a: f32 }, 2: 6 => Some {}, 3: 0x101 => None { 0 a: usize });
}

pub trait Part: Zoo + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> {}
impl<T: Zoo + Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>>> Part for T {}
#[derive(Encode, Decode, SizedEncode)] pub struct DGen3<T: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode, U, const NN: usize, const MM: usize,>(pub T, pub [u16; NN], pub U, pub SizedSlice<u8, MM>) where U: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode, SizedSlice<u8, MM>: Sized;
z_struct!(@[T: Part + SizedEncode, U: Part + SizedEncode, const NN: usize, const MM: usize] DGen3<T, U, NN, MM> { 0 a: T, 1 b: [u16; NN], 2 c: U, 3 d: SizedSlice<u8, MM> });
#[derive(Encode, Decode, SizedEncode)] #[repr(i16)] pub enum EGen3<T, U, const NN: usize> where T: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode, U: Encode<Error: Into<GenericEncodeError>> + Decode<Error: Into<GenericDecodeError>> + SizedEncode { A(T) = 300, B { u: U, n: SizedStr<NN> }, C(T, U) = 5, D }
z_enum!(@[T: Part + SizedEncode, U: Part + SizedEncode, const NN: usize] EGen3<T, U, NN>, I16, 0: 300 => A { 0 a: T }, 1: 301 => B { u a: U, n b: SizedStr<NN> }, 2: 5 => C { 0 a: T, 1 b: U }, 3: 6 => D {});
#[derive(Encode, Decode, SizedEncode)] pub struct DPhantom<T: 'static>(PhantomData<T>, u8, PhantomData<fn() -> T>);
impl<T: 'static> Zoo for DPhantom<T> { fn schema() -> S { S::Struct(vec![S::Unit, U8, S::Unit]) } fn from_tree(t: &Tree) -> Self { DPhantom(PhantomData, u8::from_tree(&t.l()[1]), PhantomData) } fn to_tree(&self) -> Tree { L(vec![L(vec![]), self.1.to_tree(), L(vec![])]) } }
#[derive(Encode, Decode, SizedEncode)] pub struct DExpr([u8; 2 + 1], [u16; 8 / 2]);
z_struct!(DExpr { 0 a: [u8; 3], 1 b: [u16; 4] });
/// Sent in a form whose last field is unsized.
#[derive(Encode, Decode)] pub struct DTailOwn { a: u16, t: Vec<u16> }
#[derive(Encode)] pub struct DTail<T: ?Sized + Encode<Error: Into<GenericEncodeError>>> { a: u16, t: T }
impl Zoo for DTailOwn {
    fn schema() -> S { S::Struct(vec![U16, S::Seq(rc(U16), None)]) }
    fn from_tree(t: &Tree) -> Self { DTailOwn { a: Zoo::from_tree(&t.l()[0]), t: Zoo::from_tree(&t.l()[1]) } }
    fn to_tree(&self) -> Tree { L(vec![self.a.to_tree(), self.t.to_tree()]) }
    fn more_views() -> u8 { 2 }
    fn more_view(t: &Tree, k: u8) -> EncFn {
        let x = Self::from_tree(t);
        macro_rules! of { ($($n:literal)*) => { match x.t.len() { $($n if k == 0 => { let v: [u16; $n] = x.t.try_into().expect("length"); let b: Box<DTail<SizedSlice<u16, $n>>> = Box::new(DTail { a: x.a, t: v.into_iter().collect() }); ef(b) })* _ => Box::new(move |o| DTail { a: x.a, t: &x.t[..] }.encode(o).map_err(ErrOf::e)) } } }
        of!(0 1 2 3 4)
    }
}
// Types that contain themselves.
#[derive(Encode, Decode)] pub struct TNode { v: u16, kids: Vec<TNode> }
impl Zoo for TNode { fn schema() -> S { S::Struct(vec![U16, S::Seq(rc(S::Rec(Self::schema)), None)]) } fn from_tree(t: &Tree) -> Self { TNode { v: Zoo::from_tree(&t.l()[0]), kids: t.l()[1].l().iter().map(Self::from_tree).collect() } } fn to_tree(&self) -> Tree { L(vec![self.v.to_tree(), L(self.kids.iter().map(Zoo::to_tree).collect())]) } }
#[derive(Encode, Decode)] pub struct TChain { c: f32, next: Option<Box<Self>> }
impl Zoo for TChain { fn schema() -> S { S::Struct(vec![U32, S::Opt(rc(S::Rec(Self::schema)))]) } fn from_tree(t: &Tree) -> Self { let (k, v) = t.l()[1].v(); TChain { c: Zoo::from_tree(&t.l()[0]), next: if k == 1 { Some(Box::new(Self::from_tree(&v[0]))) } else { None } } } fn to_tree(&self) -> Tree { L(vec![self.c.to_tree(), match &self.next { None => V(0, vec![]), Some(n) => V(1, vec![n.to_tree()]) }]) } }
#[derive(Encode, Decode)] #[repr(u8)] pub enum TList { Nil = 9, Cons(usize, Box<TList>) = 3 }
impl Zoo for TList { fn schema() -> S { S::Enum(Repr::U8, vec![(9, vec![]), (3, vec![S::Usz, S::Rec(Self::schema)])]) } fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); if k == 0 { TList::Nil } else { TList::Cons(Zoo::from_tree(&v[0]), Box::new(Self::from_tree(&v[1]))) } } fn to_tree(&self) -> Tree { match self { TList::Nil => V(0, vec![]), TList::Cons(a, b) => V(1, vec![a.to_tree(), b.to_tree()]) } } }
#[derive(Encode, Decode)] pub enum TExpr { Num(i32), Neg(Box<TExpr>), Add(Box<TExpr>, Box<TExpr>), Call { name: SizedStr<6>, args: Vec<TExpr> } }
impl Zoo for TExpr {
    fn schema() -> S { let r = || S::Rec(Self::schema); S::Enum(Repr::Isize, vec![(0, vec![S::Int(4, true)]), (1, vec![r()]), (2, vec![r(), r()]), (3, vec![S::Str(Some(6)), S::Seq(rc(r()), None)])]) }
    fn from_tree(t: &Tree) -> Self { let (k, v) = t.v(); let b = |i: usize| Box::new(Self::from_tree(&v[i])); match k { 0 => TExpr::Num(Zoo::from_tree(&v[0])), 1 => TExpr::Neg(b(0)), 2 => TExpr::Add(b(0), b(1)), _ => TExpr::Call { name: Zoo::from_tree(&v[0]), args: v[1].l().iter().map(Self::from_tree).collect() } } }
    fn to_tree(&self) -> Tree { match self { TExpr::Num(n) => V(0, vec![n.to_tree()]), TExpr::Neg(a) => V(1, vec![a.to_tree()]), TExpr::Add(a, b) => V(2, vec![a.to_tree(), b.to_tree()]), TExpr::Call { name, args } => V(3, vec![name.to_tree(), L(args.iter().map(Zoo::to_tree).collect())]) } }
}
// Causes far down.

#[derive(Encode, Decode)] pub struct DL5 { v: Vec<NonZero<u8>>, n: usize, s: SizedStr<3> }
z_struct!(DL5 { v f0: Vec<NonZero<u8>>, n f1: usize, s f2: SizedStr<3> });
#[derive(Encode, Decode)] #[repr(u16)] pub enum EL4 { A(DL5) = 7, B { l: Box<DL5>, c: f32 } }
z_enum!(EL4, U16, 0: 7 => A { 0 g0: DL5 }, 1: 8 => B { l g0: Box<DL5>, c g1: f32 });
#[derive(Encode, Decode)] pub struct DL3 { e: [EL4; 2], t: Duration }
z_struct!(DL3 { e f0: [EL4; 2], t f1: Duration });
#[derive(Encode, Decode)] pub struct DL2 { o: Option<DL3>, b: Bound<u8> }
z_struct!(DL2 { o f0: Option<DL3>, b f1: Bound<u8> });
#[derive(Encode, Decode)] pub enum EL1 { X(Vec<DL2>), Y { d: DL2, at: SystemTime } }
z_enum!(EL1, Isize, 0: 0 => X { 0 g0: Vec<DL2> }, 1: 1 => Y { d g0: DL2, at g1: SystemTime });
#[derive(Encode, Decode, SizedEncode)] pub struct DNetAll { a: Ipv4Addr, b: SocketAddrV6, c: std::net::IpAddr, d: Option<std::net::SocketAddr> }
z_struct!(DNetAll { a f0: Ipv4Addr, b f1: SocketAddrV6, c f2: std::net::IpAddr, d f3: Option<std::net::SocketAddr> });

pub fn add(v: &mut Vec<Ty>) {
    tys!(Bounded, v, DHyg, DTup14, EMany, EWide, EMaxFirst, EMaxMid, EMaxLast, EMaxSum);
    tys!(ThinBounded, v, DSwap, DTransparent, DSame, EHuge, EDefMany, EByte, ELit, E255, EI64b, EU128b, EAttr, DAttr, inner::Vis, shadow::DShadow, shadow::EShadow, DPhantom<Vec<u8>>, DExpr, DNetAll);
    tys!(ThinBounded, v, DGen3<u8, usize, 0, 3>, DGen3<EMany, f32, 2, 0>, DGen3<SizedStr<2>, DGen3<u8, u8, 1, 1>, 1, 1>, EGen3<u8, usize, 4>, EGen3<EGen3<f32, u8, 1>, DSwap, 0>, Option<EMany>, [EHuge; 2], (EWide, EWide), SizedSlice<EDefMany, 4>, Result<EMaxFirst, EMaxFirst>, Bound<EMaxMid>, [EMaxLast; 2]);
    tys!(Plain, v, TNode, TChain, TList, TExpr, DTailOwn, EL1);
    tys!(Thin, v, DL2, DL3, EL4, Vec<EMany>, Vec<TList>, Option<TExpr>, Vec<EByte>, Vec<EHuge>, Box<TNode>, Map<u16, u128>);
}
