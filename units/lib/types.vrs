// ---- lib/types.vrs: MIME types (the mime crate's enums).
pub enum TopLevel { Star, Text, Image, Audio, Video, Application, Multipart, Message, Model, Ext(String) }
pub enum SubLevel { Star, Plain, Html, Xml, Javascript, Css, EventStream, Json, WwwFormUrlEncoded, Msgpack, OctetStream, FormData, Png, Gif, Bmp, Jpeg, Mpeg, Mp4, Ogg, Ext(String) }
pub enum Attr { Charset, Boundary, Q, Ext(String) }
pub enum Value { Utf8, Ext(String) }
pub struct Mime(pub TopLevel, pub SubLevel, pub Vec<(Attr, Value)>);
impl TopLevel { pub open spec fn same(self, o: TopLevel) -> bool { match self { TopLevel::Ext(s) => o matches TopLevel::Ext(t) && s@ == t@, _ => self == o } } }
impl SubLevel { pub open spec fn same(self, o: SubLevel) -> bool { match self { SubLevel::Ext(s) => o matches SubLevel::Ext(t) && s@ == t@, _ => self == o } } }
impl Clone for TopLevel { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures self.same(r) { unimplemented!() } }
impl Clone for SubLevel { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures self.same(r) { unimplemented!() } }
