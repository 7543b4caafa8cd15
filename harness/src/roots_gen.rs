//! Written by engine/gendefs.py.
use super::*;
use ssz_derive::{Decode, Encode};
#[derive(Encode, Decode)]
pub struct K0<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_serializing, skip_deserializing)] x1: u8 }
codec!(k0, [P0: ssz::Encode + ssz::Decode], K0<P0>);
#[derive(Encode, Decode)]
pub struct K1<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing, skip_deserializing)] x0: u8, x1: P1 }
codec!(k1, [P1: ssz::Encode + ssz::Decode], K1<P1>);
#[derive(Encode, Decode)]
pub struct K2<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_serializing)] x1: u8 }
codec!(k2, [P0: ssz::Encode + ssz::Decode], K2<P0>);
#[derive(Encode, Decode)]
pub struct K3<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing)] x0: u8, x1: P1 }
codec!(k3, [P1: ssz::Encode + ssz::Decode], K3<P1>);
#[derive(Encode, Decode)]
pub struct K4<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_deserializing)] x1: u8 }
codec!(k4, [P0: ssz::Encode + ssz::Decode], K4<P0>);
#[derive(Encode, Decode)]
pub struct K5<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_deserializing)] x0: u8, x1: P1 }
codec!(k5, [P1: ssz::Encode + ssz::Decode], K5<P1>);
#[derive(Encode, Decode)]
pub struct K6<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_serializing, skip_deserializing)] x1: Vec<u8> }
codec!(k6, [P0: ssz::Encode + ssz::Decode], K6<P0>);
#[derive(Encode, Decode)]
pub struct K7<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing, skip_deserializing)] x0: Vec<u8>, x1: P1 }
codec!(k7, [P1: ssz::Encode + ssz::Decode], K7<P1>);
#[derive(Encode, Decode)]
pub struct K8<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_serializing)] x1: Vec<u8> }
codec!(k8, [P0: ssz::Encode + ssz::Decode], K8<P0>);
#[derive(Encode, Decode)]
pub struct K9<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing)] x0: Vec<u8>, x1: P1 }
codec!(k9, [P1: ssz::Encode + ssz::Decode], K9<P1>);
#[derive(Encode, Decode)]
pub struct K10<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_deserializing)] x1: Vec<u8> }
codec!(k10, [P0: ssz::Encode + ssz::Decode], K10<P0>);
#[derive(Encode, Decode)]
pub struct K11<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_deserializing)] x0: Vec<u8>, x1: P1 }
codec!(k11, [P1: ssz::Encode + ssz::Decode], K11<P1>);
#[derive(Encode, Decode)]
pub struct K12<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x1: u32 }
codec!(k12, [P0: ssz::Encode + ssz::Decode], K12<P0>);
#[derive(Encode, Decode)]
pub struct K13<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x0: u32, x1: P1 }
codec!(k13, [P1: ssz::Encode + ssz::Decode], K13<P1>);
#[derive(Encode, Decode)]
pub struct K14<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_serializing, with = "codec_u")] x1: u32 }
codec!(k14, [P0: ssz::Encode + ssz::Decode], K14<P0>);
#[derive(Encode, Decode)]
pub struct K15<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing, with = "codec_u")] x0: u32, x1: P1 }
codec!(k15, [P1: ssz::Encode + ssz::Decode], K15<P1>);
#[derive(Encode, Decode)]
pub struct K16<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_deserializing, with = "codec_u")] x1: u32 }
codec!(k16, [P0: ssz::Encode + ssz::Decode], K16<P0>);
#[derive(Encode, Decode)]
pub struct K17<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_deserializing, with = "codec_u")] x0: u32, x1: P1 }
codec!(k17, [P1: ssz::Encode + ssz::Decode], K17<P1>);
#[derive(Encode, Decode)]
pub struct K18<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(with = "codec_w", skip_serializing, skip_deserializing)] x1: Vec<u16> }
codec!(k18, [P0: ssz::Encode + ssz::Decode], K18<P0>);
#[derive(Encode, Decode)]
pub struct K19<P1: ssz::Encode + ssz::Decode> { #[ssz(with = "codec_w", skip_serializing, skip_deserializing)] x0: Vec<u16>, x1: P1 }
codec!(k19, [P1: ssz::Encode + ssz::Decode], K19<P1>);
#[derive(Encode, Decode)]
pub struct K20<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(with = "codec_w", skip_serializing)] x1: Vec<u16> }
codec!(k20, [P0: ssz::Encode + ssz::Decode], K20<P0>);
#[derive(Encode, Decode)]
pub struct K21<P1: ssz::Encode + ssz::Decode> { #[ssz(with = "codec_w", skip_serializing)] x0: Vec<u16>, x1: P1 }
codec!(k21, [P1: ssz::Encode + ssz::Decode], K21<P1>);
#[derive(Encode, Decode)]
pub struct K22<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(with = "codec_w", skip_deserializing)] x1: Vec<u16> }
codec!(k22, [P0: ssz::Encode + ssz::Decode], K22<P0>);
#[derive(Encode, Decode)]
pub struct K23<P1: ssz::Encode + ssz::Decode> { #[ssz(with = "codec_w", skip_deserializing)] x0: Vec<u16>, x1: P1 }
codec!(k23, [P1: ssz::Encode + ssz::Decode], K23<P1>);
#[derive(Encode, Decode)]
pub struct K24<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(with = "codec_f")] x1: ForeignF }
codec!(k24, [P0: ssz::Encode + ssz::Decode], K24<P0>);
#[derive(Encode, Decode)]
pub struct K25<P1: ssz::Encode + ssz::Decode> { #[ssz(with = "codec_f")] x0: ForeignF, x1: P1 }
codec!(k25, [P1: ssz::Encode + ssz::Decode], K25<P1>);
#[derive(Encode, Decode)]
pub struct K26<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(with = "codec_v")] x1: ForeignV }
codec!(k26, [P0: ssz::Encode + ssz::Decode], K26<P0>);
#[derive(Encode, Decode)]
pub struct K27<P1: ssz::Encode + ssz::Decode> { #[ssz(with = "codec_v")] x0: ForeignV, x1: P1 }
codec!(k27, [P1: ssz::Encode + ssz::Decode], K27<P1>);
#[derive(Encode, Decode)]
pub struct K28<P3: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x0: u32, #[ssz(skip_serializing)] x1: u8, #[ssz(skip_serializing)] x2: u8, x3: P3 }
codec!(k28, [P3: ssz::Encode + ssz::Decode], K28<P3>);
#[derive(Encode, Decode)]
pub struct K29 { x0: u16, #[ssz(with = "codec_f")] x1: ForeignF, x2: u16 }
codec!(k29, [], K29);
#[derive(Encode, Decode)]
pub struct K30 { #[ssz(skip_serializing)] x0: u8, #[ssz(with = "codec_w", skip_serializing)] x1: Vec<u16>, #[ssz(skip_serializing, skip_deserializing)] x2: u8 }
codec!(k30, [], K30);
#[derive(Encode, Decode)]
pub struct K31 { #[ssz(with = "codec_f")] x0: ForeignF, #[ssz(with = "codec_f")] x1: ForeignF, #[ssz(with = "codec_f")] x2: ForeignF, x3: Vec<u8>, #[ssz(with = "codec_f")] x4: ForeignF }
codec!(k31, [], K31);
#[derive(Encode, Decode)]
pub struct K32 { #[ssz(with = "codec_f")] x0: ForeignF, x1: Vec<u8>, #[ssz(with = "codec_w", skip_serializing, skip_deserializing)] x2: Vec<u16> }
codec!(k32, [], K32);
#[derive(Encode, Decode)]
pub struct K33 { #[ssz(skip_serializing, with = "codec_u")] x0: u32, #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x1: u32, #[ssz(skip_serializing, with = "codec_u")] x2: u32 }
codec!(k33, [], K33);
#[derive(Encode, Decode)]
pub struct K34 { #[ssz(with = "codec_f")] x0: ForeignF, #[ssz(with = "codec_w", skip_deserializing)] x1: Vec<u16>, #[ssz(skip_serializing)] x2: u8, x3: Vec<u8>, #[ssz(with = "codec_v")] x4: ForeignV }
codec!(k34, [], K34);
#[derive(Encode, Decode)]
pub struct K35<P0: ssz::Encode + ssz::Decode, P4: ssz::Encode + ssz::Decode> { x0: P0, x1: u16, #[ssz(with = "codec_v")] x2: ForeignV, x3: u16, x4: P4 }
codec!(k35, [P0: ssz::Encode + ssz::Decode, P4: ssz::Encode + ssz::Decode], K35<P0, P4>);
#[derive(Encode, Decode)]
pub struct K36 { #[ssz(with = "codec_v")] x0: ForeignV, x1: Vec<u8>, #[ssz(skip_serializing)] x2: u8, #[ssz(skip_serializing)] x3: Vec<u8> }
codec!(k36, [], K36);
#[derive(Encode, Decode)]
pub struct K37 { #[ssz(skip_serializing)] x0: u8, #[ssz(with = "codec_v")] x1: ForeignV, #[ssz(with = "codec_w", skip_serializing)] x2: Vec<u16>, #[ssz(skip_serializing)] x3: Vec<u8>, #[ssz(with = "codec_w", skip_serializing)] x4: Vec<u16> }
codec!(k37, [], K37);
#[derive(Encode, Decode)]
pub struct K38<P2: ssz::Encode + ssz::Decode> { x0: u16, x1: Vec<u8>, x2: P2, #[ssz(with = "codec_v")] x3: ForeignV }
codec!(k38, [P2: ssz::Encode + ssz::Decode], K38<P2>);
#[derive(Encode, Decode)]
pub struct K39 { #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x0: u32, x1: u16, x2: u16 }
codec!(k39, [], K39);
#[derive(Encode, Decode)]
pub struct K40 { #[ssz(with = "codec_f")] x0: ForeignF, #[ssz(skip_deserializing, with = "codec_u")] x1: u32, x2: u16, #[ssz(with = "codec_w", skip_serializing)] x3: Vec<u16>, #[ssz(skip_serializing, skip_deserializing)] x4: Vec<u8> }
codec!(k40, [], K40);
#[derive(Encode, Decode)]
pub struct K41 { #[ssz(with = "codec_f")] x0: ForeignF, #[ssz(with = "codec_f")] x1: ForeignF, x2: Vec<u8> }
codec!(k41, [], K41);
#[derive(Encode, Decode)]
pub struct K42<P0: ssz::Encode + ssz::Decode> { x0: P0, x1: Vec<u8>, x2: Vec<u8> }
codec!(k42, [P0: ssz::Encode + ssz::Decode], K42<P0>);
#[derive(Encode, Decode)]
pub struct K43 { #[ssz(with = "codec_w", skip_deserializing)] x0: Vec<u16>, #[ssz(with = "codec_w", skip_serializing, skip_deserializing)] x1: Vec<u16>, #[ssz(with = "codec_w", skip_deserializing)] x2: Vec<u16>, x3: Vec<u8> }
codec!(k43, [], K43);
#[derive(Encode, Decode)]
pub struct K44<P2: ssz::Encode + ssz::Decode> { x0: u16, x1: u16, x2: P2, #[ssz(skip_serializing, with = "codec_u")] x3: u32, #[ssz(with = "codec_v")] x4: ForeignV }
codec!(k44, [P2: ssz::Encode + ssz::Decode], K44<P2>);
#[derive(Encode, Decode)]
pub struct K45<P1: ssz::Encode + ssz::Decode> { x0: Vec<u8>, x1: P1, #[ssz(with = "codec_w", skip_serializing, skip_deserializing)] x2: Vec<u16> }
codec!(k45, [P1: ssz::Encode + ssz::Decode], K45<P1>);
#[derive(Encode, Decode)]
pub struct K46 { #[ssz(with = "codec_f")] x0: ForeignF, #[ssz(skip_deserializing)] x1: u8, #[ssz(skip_deserializing)] x2: Vec<u8> }
codec!(k46, [], K46);
#[derive(Encode, Decode)]
pub struct K47<P0: ssz::Encode + ssz::Decode, P3: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(skip_serializing, with = "codec_u")] x1: u32, #[ssz(with = "codec_v")] x2: ForeignV, x3: P3 }
codec!(k47, [P0: ssz::Encode + ssz::Decode, P3: ssz::Encode + ssz::Decode], K47<P0, P3>);
#[derive(Encode, Decode)]
pub struct K48 { #[ssz(skip_serializing, with = "codec_u")] x0: u32, #[ssz(skip_deserializing)] x1: u8, #[ssz(with = "codec_f")] x2: ForeignF, #[ssz(skip_deserializing, with = "codec_u")] x3: u32 }
codec!(k48, [], K48);
#[derive(Encode, Decode)]
pub struct K49<P2: ssz::Encode + ssz::Decode> { x0: Vec<u8>, #[ssz(skip_deserializing, with = "codec_u")] x1: u32, x2: P2, #[ssz(skip_serializing)] x3: Vec<u8> }
codec!(k49, [P2: ssz::Encode + ssz::Decode], K49<P2>);
#[derive(Encode, Decode)]
pub struct K50 { #[ssz(skip_deserializing)] x0: Vec<u8>, #[ssz(skip_deserializing, with = "codec_u")] x1: u32, x2: Vec<u8>, #[ssz(with = "codec_f")] x3: ForeignF }
codec!(k50, [], K50);
#[derive(Encode, Decode)]
pub struct K51 { #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x0: u32, #[ssz(skip_serializing, skip_deserializing)] x1: Vec<u8>, x2: u16 }
codec!(k51, [], K51);
#[derive(Encode, Decode)]
pub struct K52 { #[ssz(skip_serializing, skip_deserializing)] x0: u8, #[ssz(skip_serializing, with = "codec_u")] x1: u32, x2: Vec<u8>, #[ssz(skip_serializing, with = "codec_u")] x3: u32 }
codec!(k52, [], K52);
#[derive(Encode, Decode)]
pub struct K53<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_deserializing)] x0: Vec<u8>, x1: P1, #[ssz(with = "codec_f")] x2: ForeignF, x3: u16 }
codec!(k53, [P1: ssz::Encode + ssz::Decode], K53<P1>);
#[derive(Encode, Decode)]
pub struct K54 { #[ssz(skip_serializing, skip_deserializing)] x0: u8, #[ssz(skip_serializing, skip_deserializing)] x1: Vec<u8> }
codec!(k54, [], K54);
#[derive(Encode, Decode)]
pub struct K55 { #[ssz(with = "codec_f")] x0: ForeignF, #[ssz(with = "codec_f")] x1: ForeignF }
codec!(k55, [], K55);
#[derive(Encode, Decode)]
pub struct K56 { #[ssz(with = "codec_v")] x0: ForeignV, #[ssz(with = "codec_v")] x1: ForeignV }
codec!(k56, [], K56);
#[derive(Encode, Decode)]
pub struct K57 { #[ssz(with = "codec_v")] x0: ForeignV, #[ssz(with = "codec_f")] x1: ForeignF }
codec!(k57, [], K57);
#[derive(Encode, Decode)]
pub struct K58 { #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x0: u32, #[ssz(with = "codec_v")] x1: ForeignV, #[ssz(with = "codec_w", skip_serializing, skip_deserializing)] x2: Vec<u16>, #[ssz(with = "codec_f")] x3: ForeignF, #[ssz(skip_serializing, skip_deserializing)] x4: Vec<u8> }
codec!(k58, [], K58);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K59<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing, skip_deserializing)] x0: u8, x1: P1 }
codec!(k59, [P1: ssz::Encode + ssz::Decode], K59<P1>);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K60<P0: ssz::Encode + ssz::Decode>(P0, #[ssz(skip_serializing, skip_deserializing)] u8);
codec!(k60, [P0: ssz::Encode + ssz::Decode], K60<P0>);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K61(#[ssz(skip_serializing, skip_deserializing)] Vec<u8>, #[ssz(with = "codec_f")] ForeignF);
codec!(k61, [], K61);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K62 { #[ssz(with = "codec_f")] x0: ForeignF, #[ssz(skip_serializing, skip_deserializing)] x1: Vec<u8> }
codec!(k62, [], K62);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K63 { #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x0: u32, #[ssz(with = "codec_v")] x1: ForeignV }
codec!(k63, [], K63);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K64(#[ssz(with = "codec_v")] ForeignV, #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] u32);
codec!(k64, [], K64);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K65<P1: ssz::Encode + ssz::Decode>(#[ssz(with = "codec_w", skip_serializing, skip_deserializing)] Vec<u16>, P1);
codec!(k65, [P1: ssz::Encode + ssz::Decode], K65<P1>);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K66<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(with = "codec_w", skip_serializing, skip_deserializing)] x1: Vec<u16> }
codec!(k66, [P0: ssz::Encode + ssz::Decode], K66<P0>);
#[derive(Encode)] #[ssz(struct_behaviour = "transparent")]
pub struct K67<P1: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing)] x0: u8, x1: P1 }
enc!(k67, [P1: ssz::Encode + ssz::Decode], K67<P1>);
#[derive(Encode)] #[ssz(struct_behaviour = "transparent")]
pub struct K68<P0: ssz::Encode + ssz::Decode>(P0, #[ssz(skip_serializing)] u8);
enc!(k68, [P0: ssz::Encode + ssz::Decode], K68<P0>);
#[derive(Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K69(#[ssz(skip_deserializing)] Vec<u8>, #[ssz(with = "codec_f")] ForeignF);
dec!(k69, [], K69);
#[derive(Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K70 { #[ssz(with = "codec_f")] x0: ForeignF, #[ssz(skip_deserializing)] x1: Vec<u8> }
dec!(k70, [], K70);
#[derive(Encode)] #[ssz(struct_behaviour = "transparent")]
pub struct K71 { #[ssz(skip_serializing, with = "codec_u")] x0: u32, #[ssz(with = "codec_v")] x1: ForeignV }
enc!(k71, [], K71);
#[derive(Encode)] #[ssz(struct_behaviour = "transparent")]
pub struct K72(#[ssz(with = "codec_v")] ForeignV, #[ssz(skip_serializing, with = "codec_u")] u32);
enc!(k72, [], K72);
#[derive(Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K73<P1: ssz::Encode + ssz::Decode>(#[ssz(with = "codec_w", skip_deserializing)] Vec<u16>, P1);
dec!(k73, [P1: ssz::Encode + ssz::Decode], K73<P1>);
#[derive(Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K74<P0: ssz::Encode + ssz::Decode> { x0: P0, #[ssz(with = "codec_w", skip_deserializing)] x1: Vec<u16> }
dec!(k74, [P0: ssz::Encode + ssz::Decode], K74<P0>);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K75<P2: ssz::Encode + ssz::Decode> { #[ssz(skip_serializing, skip_deserializing)] x0: u8, #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x1: u32, x2: P2 }
codec!(k75, [P2: ssz::Encode + ssz::Decode], K75<P2>);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K76<P1: ssz::Encode + ssz::Decode>(#[ssz(skip_serializing, skip_deserializing)] Vec<u8>, P1, #[ssz(with = "codec_w", skip_serializing, skip_deserializing)] Vec<u16>);
codec!(k76, [P1: ssz::Encode + ssz::Decode], K76<P1>);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K77(#[ssz(with = "codec_w", skip_serializing, skip_deserializing)] Vec<u16>, #[ssz(skip_serializing, skip_deserializing)] u8, #[ssz(with = "codec_v")] ForeignV);
codec!(k77, [], K77);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K78 { #[ssz(skip_serializing, skip_deserializing, with = "codec_u")] x0: u32, #[ssz(with = "codec_f")] x1: ForeignF, #[ssz(skip_serializing, skip_deserializing)] x2: Vec<u8> }
codec!(k78, [], K78);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K79 { #[ssz(with = "codec_f")] x0: ForeignF }
codec!(k79, [], K79);
#[derive(Encode, Decode)] #[ssz(struct_behaviour = "transparent")]
pub struct K80(#[ssz(with = "codec_v")] ForeignV);
codec!(k80, [], K80);
