//! Stand-ins used under the verifier only. A `no_*` stub panics when reached, so a proof that passes also shows the callee is never called.
use netsblox_vm::runtime::*;
#[allow(dead_code)] pub fn no_from_name(_: &str) -> Option<Note> { panic!("stubbed callee reached: Note::from_name") }
use netsblox_vm::json::Json;
use netsblox_vm::gc::Mutation;
#[allow(dead_code)] pub fn no_from_json(_: Json) -> Result<SimpleValue, FromJsonError> { panic!("stubbed callee reached: from_json") }
#[allow(dead_code)] pub fn no_from_netsblox_json(_: Json) -> Result<SimpleValue, FromNetsBloxJsonError> { panic!("stubbed callee reached: from_netsblox_json") }
#[allow(dead_code)] pub fn no_into_netsblox_json(_: SimpleValue) -> Json { panic!("stubbed callee reached: into_netsblox_json") }
#[allow(dead_code)] pub fn no_into_json<C: CustomTypes<S>, S: System<C>>(_: SimpleValue) -> Result<Json, IntoJsonError<C, S>> { panic!("stubbed callee reached: into_json") }
#[allow(dead_code)] pub fn no_parse_number(_: &str) -> Option<Number> { panic!("stubbed callee reached: parse_number") }
#[allow(dead_code)] pub fn no_stringify_number(_: Number) -> Text { panic!("stubbed callee reached: stringify_number") }
#[allow(dead_code)] pub fn no_to_simple<'gc: 'gc, C: CustomTypes<S>, S: System<C>>(_: &Value<'gc, C, S>) -> Result<SimpleValue, ToSimpleError<C, S>> { panic!("stubbed callee reached: to_simple") }
#[allow(dead_code)] pub fn no_from_simple<'gc: 'gc, C: CustomTypes<S>, S: System<C>>(_: &Mutation<'gc>, _: SimpleValue) -> Value<'gc, C, S> { panic!("stubbed callee reached: from_simple") }
/// Formatting of text is outside every contract proved by the verifier: it is replaced by the empty string.
#[allow(dead_code)] pub fn fmt_empty(_: std::fmt::Arguments<'_>) -> String { String::new() }
