//! The JSON schemas printed for users, against the messages they describe.
use crate::fw::*;
use crate::gen::Gen;
use crate::p_cli;
use over_there::core::{Content, LazilyTransformedRequest, Reply, ReplyError, Request, SchemaInfo};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;

// ------------------------------------------------------------------ JSON schema (draft 7), as far as needed
/// Why `v` does not fit `s` (None: it does)
fn misfit(root: &Value, s: &Value, v: &Value, depth: u32) -> Option<String> {
    if depth > 200 {
        return Some("schema nested too deep".into());
    }
    let m = match s {
        Value::Bool(true) => return None,
        Value::Bool(false) => return Some("nothing fits".into()),
        Value::Object(m) => m,
        x => return Some(format!("no schema: {}", x)),
    };
    if let Some(r) = m.get("$ref") {
        return match r.as_str().and_then(|r| r.strip_prefix("#")).and_then(|p| root.pointer(p)) {
            Some(t) => misfit(root, t, v, depth + 1),
            None => Some(format!("dangling reference {}", r)),
        };
    }
    for (k, a) in m {
        let list = || a.as_array().cloned().unwrap_or_default();
        let bad = match k.as_str() {
            // (annotations)
            "$schema" | "title" | "description" | "default" | "definitions" | "examples" => None,
            "type" => {
                let is = |t: &str| match t {
                    "null" => v.is_null(),
                    "boolean" => v.is_boolean(),
                    "string" => v.is_string(),
                    "number" => v.is_number(),
                    "integer" => v.is_i64() || v.is_u64() || v.as_f64().map(|f| f.fract() == 0.0).unwrap_or(false),
                    "array" => v.is_array(),
                    "object" => v.is_object(),
                    _ => false,
                };
                let ok = match a {
                    Value::String(t) => is(t),
                    Value::Array(ts) => ts.iter().any(|t| t.as_str().map(is).unwrap_or(false)),
                    _ => false,
                };
                (!ok).then_some(format!("is no {}", a))
            }
            "enum" => (!list().contains(v)).then_some(format!("is none of {}", a)),
            "const" => (a != v).then_some(format!("is not {}", a)),
            "format" => match (a.as_str().unwrap_or(""), v.is_number()) {
                ("uint8", true) => (!v.as_u64().map(|x| x < 256).unwrap_or(false)).then_some("is no byte".into()),
                ("uint16", true) => (!v.as_u64().map(|x| x < 65536).unwrap_or(false)).then_some("is no uint16".into()),
                ("uint32", true) => (!v.as_u64().map(|x| x <= u32::MAX as u64).unwrap_or(false)).then_some("is no uint32".into()),
                ("int32", true) => (!v.as_i64().map(|x| x >= i32::MIN as i64 && x <= i32::MAX as i64).unwrap_or(false)).then_some("is no int32".into()),
                _ => None,
            },
            "minimum" => match (v.as_f64(), a.as_f64()) {
                (Some(x), Some(y)) => (x < y).then_some(format!("is below {}", y)),
                _ => None,
            },
            "maximum" => match (v.as_f64(), a.as_f64()) {
                (Some(x), Some(y)) => (x > y).then_some(format!("is above {}", y)),
                _ => None,
            },
            "minItems" => (v.as_array().map(|x| x.len() as u64) < a.as_u64() && v.is_array()).then_some("too few".into()),
            "maxItems" => (v.as_array().map(|x| x.len() as u64) > a.as_u64() && v.is_array()).then_some("too many".into()),
            "minLength" => (v.as_str().map(|x| x.chars().count() as u64) < a.as_u64() && v.is_string()).then_some("too short".into()),
            "maxLength" => (v.as_str().map(|x| x.chars().count() as u64) > a.as_u64() && v.is_string()).then_some("too long".into()),
            "required" => v.as_object().and_then(|o| list().iter().find(|k| !o.contains_key(k.as_str().unwrap_or(""))).map(|k| format!("lacks {}", k))),
            "properties" => match (a, v) {
                (Value::Object(ps), Value::Object(o)) => ps.iter().find_map(|(k, s)| o.get(k).and_then(|x| misfit(root, s, x, depth + 1).map(|e| format!(".{} {}", k, e)))),
                _ => None,
            },
            "additionalProperties" => match v {
                Value::Object(o) => {
                    let known = m.get("properties").and_then(|p| p.as_object());
                    o.iter().filter(|(k, _)| known.map(|p| !p.contains_key(*k)).unwrap_or(true)).find_map(|(k, x)| misfit(root, a, x, depth + 1).map(|e| format!(".{} {}", k, e)))
                }
                _ => None,
            },
            "items" => match (a, v) {
                (Value::Array(ss), Value::Array(xs)) => ss.iter().zip(xs).enumerate().find_map(|(i, (s, x))| misfit(root, s, x, depth + 1).map(|e| format!("[{}] {}", i, e))),
                (s, Value::Array(xs)) => xs.iter().enumerate().find_map(|(i, x)| misfit(root, s, x, depth + 1).map(|e| format!("[{}] {}", i, e))),
                _ => None,
            },
            "allOf" => list().iter().find_map(|s| misfit(root, s, v, depth + 1)),
            "anyOf" => {
                let e: Vec<_> = list().iter().map(|s| misfit(root, s, v, depth + 1)).collect();
                // (the reason that got furthest)
                (!e.iter().any(|x| x.is_none())).then(|| e.into_iter().flatten().max_by_key(|x| x.len()).unwrap_or_default())
            }
            "oneOf" => {
                let n = list().iter().filter(|s| misfit(root, s, v, depth + 1).is_none()).count();
                (n != 1).then_some(format!("fits {} of the alternatives", n))
            }
            "not" => misfit(root, a, v, depth + 1).is_none().then_some("fits what it must not".into()),
            k => Some(format!("(unknown keyword {})", k)),
        };
        if let Some(e) = bad {
            // (never a finding: the validator has to learn it)
            if e.contains("(unknown keyword ") {
                return Some(e);
            }
            return Some(clip(&e, 300));
        }
    }
    None
}
fn check(what: &str, s: &Value, v: &Value) -> R<()> {
    match misfit(s, s, v, 0) {
        None => Ok(()),
        Some(e) if e.contains("(unknown keyword ") => env(format!("{}: {}", what, e)),
        Some(e) => bad("not-accepted", format!("{} does not accept {}: {}", what, clip(&v.to_string(), 300), e)),
    }
}

// ------------------------------------------------------------------ what is printed
fn tool(args: &[&str]) -> R<String> {
    let r = p_cli::run(&args.iter().map(|x| x.to_string()).collect::<Vec<_>>(), Path::new("/"), None)?;
    ensure!(r.code == Some(0), "schema-fails", "{:?}: exit {:?} {}", args, r.code, String::from_utf8_lossy(&r.err));
    String::from_utf8(r.out).map_err(|_| Bad::Fail("not-text".into(), format!("{:?} prints no text", args)))
}
/// Every schema the tool lists
fn schemas() -> R<std::sync::Arc<BTreeMap<String, Value>>> {
    static AT: std::sync::Mutex<Option<std::sync::Arc<BTreeMap<String, Value>>>> = std::sync::Mutex::new(None);
    let mut at = AT.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(x) = &*at {
        return Ok(x.clone());
    }
    let mut all = BTreeMap::new();
    for n in tool(&["schema", "list"])?.lines().filter(|l| !l.trim().is_empty()) {
        let t = tool(&["schema", "info", n])?;
        match serde_json::from_str(&t) {
            Ok(v) => {
                all.insert(n.trim().to_string(), v);
            }
            Err(e) => return bad("no-json", format!("schema info {} prints no JSON: {}", n, e)),
        }
    }
    let all = std::sync::Arc::new(all);
    *at = Some(all.clone());
    Ok(all)
}
fn get<'a>(all: &'a BTreeMap<String, Value>, n: &str) -> R<&'a Value> {
    match all.get(n) {
        Some(s) => Ok(s),
        None => bad("not-listed", format!("no schema is listed for {}", n)),
    }
}

// ------------------------------------------------------------------ a message fits what is printed for it
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fit {
    seed: u64,
    kind: u8,
    reply: bool,
    depth: u8,
}
fn fit() -> impl Strategy<Value = Fit> {
    (any::<u64>(), prop_oneof![2 => any::<u8>(), 1 => 23..28u8], any::<bool>(), 0..4u8).prop_map(|(seed, kind, reply, depth)| Fit { seed, kind, reply, depth })
}
fn content(c: &Fit) -> Content {
    let mut g = Gen::new(c.seed);
    if c.reply {
        Content::Reply(g.reply_kind(c.kind, c.depth))
    } else {
        Content::Request(g.request_kind(c.kind, c.depth))
    }
}
/// The messages and errors within a message's JSON form, each with its kind
fn parts<'a>(v: &'a Value, out: &mut Vec<(&'a str, &'a Value)>) {
    match v {
        Value::Object(o) => {
            if let Some(Value::String(t)) = o.get("type") {
                out.push((t, v));
            }
            o.values().for_each(|x| parts(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| parts(x, out)),
        _ => {}
    }
}
fn run_fit(c: &Fit) -> Verdict {
    (|| -> R<Info> {
        let all = schemas()?;
        let m = content(c);
        let v = serde_json::to_value(&m).map_err(|e| Bad::Fail("no-json".into(), e.to_string()))?;
        check("the schema of content", get(&all, "content")?, &v)?;
        check("the schema of its side", get(&all, if c.reply { "reply" } else { "request" })?, &v)?;
        // (the library prints them too)
        let lib = |s: String| serde_json::from_str::<Value>(&s).map_err(|e| Bad::Fail("no-json".into(), e.to_string()));
        check("Content::schema()", &lib(Content::schema())?, &v)?;
        match &m {
            Content::Request(_) => check("Request::schema()", &lib(Request::schema())?, &v)?,
            Content::Reply(r) => {
                check("Reply::schema()", &lib(Reply::schema())?, &v)?;
                if let Reply::Error(e) = r {
                    let v = serde_json::to_value(e).map_err(|e| Bad::Env(e.to_string()))?;
                    check("ReplyError::schema()", &lib(ReplyError::schema())?, &v)?;
                }
            }
        }
        let mut ps = vec![];
        parts(&v, &mut ps);
        for (t, x) in &ps {
            match *t {
                // (an error carries its kind within)
                "generic_error" | "io_error" => {
                    check(&format!("the schema of {}", t), get(&all, t)?, x)?;
                    check("the schema of error_reply", get(&all, "error_reply")?, x)?;
                }
                "file_sig_changed_error" => {
                    check("the schema of file_sig_changed", get(&all, "file_sig_changed")?, x)?;
                    check("the schema of error_reply", get(&all, "error_reply")?, x)?;
                }
                t => check(&format!("the schema of {}", t), get(&all, t)?, x.get("payload").unwrap_or(&Value::Null))?,
            }
            if *t == "sequence_request" {
                let s = lib(LazilyTransformedRequest::schema())?;
                for x in x["payload"]["operations"].as_array().into_iter().flatten() {
                    check("LazilyTransformedRequest::schema()", &s, x)?;
                }
            }
        }
        Ok(Info::new().nt(v.get("payload").is_some()).class_if(ps.len() > 1, "nested").class_if(c.reply, "reply").class_if(!c.reply, "request"))
    })()
    .into()
}

// ------------------------------------------------------------------ what is written to a schema is understood
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Make {
    which: u16,
    seed: u64,
    depth: u8,
}
fn make() -> impl Strategy<Value = Make> {
    (any::<u16>(), any::<u64>(), 0..4u8).prop_map(|(which, seed, depth)| Make { which, seed, depth })
}
/// Something that fits a schema (None: too deep)
fn instance(root: &Value, s: &Value, name: &str, g: &mut Gen, depth: u32) -> Option<Value> {
    if depth > 24 {
        return None;
    }
    if let Some(r) = s.get("$ref") {
        let t = root.pointer(r.as_str()?.strip_prefix("#")?)?;
        return instance(root, t, name, g, depth + 1);
    }
    if let Some(a) = s.get("enum").and_then(|x| x.as_array()) {
        return a.get(g.u32() as usize % a.len().max(1)).cloned();
    }
    if let Some(c) = s.get("const") {
        return Some(c.clone());
    }
    for k in ["anyOf", "oneOf"].iter() {
        if let Some(a) = s.get(k).and_then(|x| x.as_array()) {
            let i = g.u32() as usize;
            // (when the first taken leads too deep, another may not)
            return (0..a.len()).find_map(|j| instance(root, &a[(i + j) % a.len()], name, g, depth + 1));
        }
    }
    if let Some(a) = s.get("allOf").and_then(|x| x.as_array()) {
        return match a.len() {
            1 => instance(root, &a[0], name, g, depth + 1),
            _ => None,
        };
    }
    let t = match s.get("type") {
        Some(Value::String(t)) => t.clone(),
        Some(Value::Array(a)) if !a.is_empty() => a[g.u32() as usize % a.len()].as_str()?.to_string(),
        _ => return Some(g_any(g)),
    };
    Some(match t.as_str() {
        "null" => Value::Null,
        "boolean" => json!(g.bool()),
        "integer" => match s.get("format").and_then(|x| x.as_str()) {
            Some("uint8") => json!(g.u32() as u8),
            Some("uint16") => json!(g.u32() as u16),
            Some("uint32") => json!(g.u32()),
            Some("int32") => json!(g.u32() as i32),
            _ => json!(g.u32()),
        },
        "number" => json!(g.u32() as f64 / 8.0),
        // (the schema calls an address a text)
        "string" if name == "address" => json!(g.addr().to_string()),
        "string" => json!(g.string()),
        "array" => {
            let item = s.get("items").cloned().unwrap_or(Value::Bool(true));
            let n = g.u32() as usize % 4;
            let mut v = vec![];
            for _ in 0..n {
                match instance(root, &item, name, g, depth + 4) {
                    Some(x) => v.push(x),
                    None => break,
                }
            }
            Value::Array(v)
        }
        "object" => {
            let req: Vec<&str> = s.get("required").and_then(|x| x.as_array()).into_iter().flatten().filter_map(|x| x.as_str()).collect();
            let mut m = Map::new();
            for (k, p) in s.get("properties").and_then(|x| x.as_object()).into_iter().flatten() {
                if req.contains(&k.as_str()) || g.bool() {
                    m.insert(k.clone(), instance(root, p, k, g, depth + 1)?);
                }
            }
            // a required field nothing is said about
            for k in req {
                if !m.contains_key(k) {
                    let x = g_any(g);
                    m.insert(k.to_string(), x);
                }
            }
            Value::Object(m)
        }
        _ => return None,
    })
}
fn g_any(g: &mut Gen) -> Value {
    match g.u32() % 4 {
        0 => Value::Null,
        1 => json!({}),
        2 => json!(g.string()),
        _ => json!(g.u32()),
    }
}
/// As JSON would be without absent values spelled out
fn bare(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(_, x)| !x.is_null()).map(|(k, x)| (k.clone(), bare(x))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(bare).collect()),
        x => x.clone(),
    }
}
fn run_make(c: &Make) -> Verdict {
    (|| -> R<Info> {
        let all = schemas()?;
        let (name, s) = all.iter().nth(c.which as usize % all.len()).unwrap();
        let mut g = Gen::new(c.seed);
        let v = match instance(s, s, "", &mut g, 8 - 2 * c.depth as u32) {
            Some(v) => v,
            None => return Ok(Info::new().class("too-deep")),
        };
        let whole = match name.as_str() {
            "content" | "request" | "reply" => v,
            "error_reply" => json!({"type": "error_reply", "payload": v}),
            "generic_error" | "io_error" | "file_sig_changed" => {
                let mut v = v;
                match &mut v {
                    Value::Object(o) => o.insert("type".into(), json!(if name == "file_sig_changed" { "file_sig_changed_error" } else { name.as_str() })),
                    _ => return bad("not-understood", format!("the schema of {} allows {}", name, v)),
                };
                json!({"type": "error_reply", "payload": v})
            }
            // nothing is said: there is none
            _ if s == &json!({}) => json!({ "type": name }),
            _ if v.is_null() => json!({ "type": name }),
            _ => json!({"type": name, "payload": v}),
        };
        let shown = clip(&whole.to_string(), 400);
        let m: Content = match serde_json::from_value(whole.clone()) {
            Ok(m) => m,
            Err(e) => return bad("not-understood", format!("{} fits the schema of {}, but is refused: {}", shown, name, e)),
        };
        let side = match &m {
            Content::Request(_) => "request",
            Content::Reply(_) => "reply",
        };
        let is_reply = |n: &str| n.ends_with("_reply") || n == "reply" || n.ends_with("_error") || n == "file_sig_changed";
        ensure!(name == "content" || is_reply(name) == (side == "reply"), "taken-for-another", "{} fits the schema of {}, but is a {}", shown, name, side);
        let again = serde_json::to_value(&m).map_err(|e| Bad::Env(e.to_string()))?;
        ensure!(bare(&again) == bare(&whole), "taken-for-another", "{} fits the schema of {}, but becomes {}", shown, name, clip(&again.to_string(), 400));
        let mut ps = vec![];
        parts(&whole, &mut ps);
        Ok(Info::new().nt(whole.get("payload").is_some()).class_if(ps.len() > 1, "nested"))
    })()
    .into()
}

// ------------------------------------------------------------------ what is refused does not fit either
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Spoil {
    Drop,
    /// a value of another type (which one)
    Type(u8),
    /// an unknown kind
    Kind,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wrong {
    of: Fit,
    at: u16,
    how: Spoil,
}
fn wrong() -> impl Strategy<Value = Wrong> {
    (fit(), any::<u16>(), prop_oneof![3 => Just(Spoil::Drop), 5 => any::<u8>().prop_map(Spoil::Type), 1 => Just(Spoil::Kind)]).prop_map(|(of, at, how)| Wrong { of, at, how })
}
fn places(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => o.iter().for_each(|(k, x)| {
            // (nothing needs escaping in these)
            out.push(format!("{}/{}", at, k));
            places(x, format!("{}/{}", at, k), out)
        }),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| {
            out.push(format!("{}/{}", at, i));
            places(x, format!("{}/{}", at, i), out)
        }),
        _ => {}
    }
}
fn run_wrong(c: &Wrong) -> Verdict {
    (|| -> R<Info> {
        let all = schemas()?;
        let was = serde_json::to_value(&content(&c.of)).map_err(|e| Bad::Env(e.to_string()))?;
        let mut v = was.clone();
        let mut ps = vec![];
        places(&v, String::new(), &mut ps);
        if let Spoil::Kind = c.how {
            ps.retain(|p| p.ends_with("/type"));
        }
        let at = ps[c.at as usize % ps.len()].clone();
        match &c.how {
            Spoil::Drop => {
                let (up, last) = at.rsplit_once('/').unwrap();
                match v.pointer_mut(up) {
                    Some(Value::Object(o)) => {
                        o.remove(last);
                    }
                    _ => return Ok(Info::new().class("in-a-list")),
                }
            }
            Spoil::Type(k) => {
                let x = v.pointer_mut(&at).unwrap();
                let other = [Value::Null, json!(true), json!(7), json!("seven"), json!(["x"]), json!({"x": 1}), json!(-1), json!(1.5)];
                let like = |a: &Value, b: &Value| std::mem::discriminant(a) == std::mem::discriminant(b) && !a.is_number();
                let o: Vec<_> = other.iter().filter(|o| !like(o, x)).cloned().collect();
                *x = o[*k as usize % o.len()].clone();
            }
            Spoil::Kind => *v.pointer_mut(&at).unwrap() = json!("seven_request"),
        }
        if v == was {
            return Ok(Info::new().class("same"));
        }
        if serde_json::from_value::<Content>(v.clone()).is_ok() {
            return Ok(Info::new().class("still-good"));
        }
        let s = get(&all, "content")?;
        match misfit(s, s, &v, 0) {
            Some(e) if e.contains("(unknown keyword ") => env(e),
            Some(_) => Ok(Info::new().nt(true)),
            None => bad("fits-anyway", format!("{} spoiled at {} ({:?}) fits the schema but is refused: {}", clip(&was.to_string(), 300), at, c.how, clip(&v.to_string(), 300))),
        }
    })()
    .into()
}

pub fn c25() -> Check {
    Check {
        rule: "accepts: generated messages of every kind, nested; each must fit, by a draft-7 validator, the schemas printed for its kind and for those within it (tool and library); non-trivial: it carries values. understood: values generated from a printed schema must be read as that message, and written back the same. refuses: messages with one field dropped, of another type or of an unknown kind; what is not read as a message must not fit.",
        assumptions: vec!["a text standing for an address is a valid one; number formats (uint8, uint32, int32) are honoured"],
        legs: vec![
            leg("accepts", o(15_000, 300_000).hang(120), fit, run_fit),
            leg("understood", o(60_000, 600_000).hang(120), make, run_make),
            leg("refuses", o(60_000, 600_000).hang(120), wrong, run_wrong),
        ],
    }
}
