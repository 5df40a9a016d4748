//! B02: conversion of application types to JSON and back.  The types are those of spec/JsonTypes.tla; they are built
//! from and shown as descriptions by hand, independently of the conversions under test.
use crate::bridge::{json_value, show_json};
use chrono::{DateTime, Datelike, NaiveDate, Utc};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap};
use vertigo::{from_json, to_json, AutoJsJson, JsJsonDeserialize, JsJsonSerialize};

trait Ty: JsJsonSerialize + JsJsonDeserialize {
    fn build(d: &J) -> Self;
    fn show(&self) -> J;
}

fn items(d: &J) -> &Vec<J> {
    d.as_array().expect("rig: items")
}

fn text(d: &J) -> &str {
    d.as_str().expect("rig: text")
}

macro_rules! ints { ($($t:ty),*) => { $(
    impl Ty for $t {
        fn build(d: &J) -> Self { text(&d[1]).parse().expect("rig: integer") }
        fn show(&self) -> J { json!(["int", self.to_string()]) }
    }
)* } }
ints!(u32, i32, u64, i64);

impl Ty for bool {
    fn build(d: &J) -> Self {
        d[1] == true
    }
    fn show(&self) -> J {
        json!(["bool", self])
    }
}

impl Ty for String {
    fn build(d: &J) -> Self {
        text(&d[1]).into()
    }
    fn show(&self) -> J {
        json!(["str", self])
    }
}

impl Ty for () {
    fn build(_: &J) -> Self {}
    fn show(&self) -> J {
        json!(["unit"])
    }
}

impl Ty for DateTime<Utc> {
    fn build(d: &J) -> Self {
        let (s, n) = text(&d[1]).split_once('.').expect("rig: moment");
        DateTime::from_timestamp(s.parse().unwrap(), n.parse().unwrap()).expect("rig: moment")
    }
    fn show(&self) -> J {
        json!(["time", format!("{}.{:09}", self.timestamp(), self.timestamp_subsec_nanos())])
    }
}

impl Ty for NaiveDate {
    fn build(d: &J) -> Self {
        let p = text(&d[1]).split('-').map(|x| x.parse::<u32>().unwrap()).collect::<Vec<_>>();
        NaiveDate::from_ymd_opt(p[0] as i32, p[1], p[2]).expect("rig: day")
    }
    fn show(&self) -> J {
        json!(["day", format!("{:04}-{:02}-{:02}", self.year(), self.month(), self.day())])
    }
}

impl<T: Ty> Ty for Vec<T> {
    fn build(d: &J) -> Self {
        items(&d[1]).iter().map(T::build).collect()
    }
    fn show(&self) -> J {
        json!(["list", self.iter().map(T::show).collect::<Vec<_>>()])
    }
}

impl<T: Ty> Ty for Option<T> {
    fn build(d: &J) -> Self {
        (d[0] == "some").then(|| T::build(&d[1]))
    }
    fn show(&self) -> J {
        match self {
            Some(x) => json!(["some", x.show()]),
            None => json!(["none"]),
        }
    }
}

impl<T: Ty> Ty for HashMap<String, T> {
    fn build(d: &J) -> Self {
        items(&d[1]).iter().map(|x| (text(&x[0]).to_string(), T::build(&x[1]))).collect()
    }
    fn show(&self) -> J {
        json!(["map", self.iter().map(|(k, v)| json!([k, v.show()])).collect::<Vec<_>>()])
    }
}

impl<T: Ty> Ty for BTreeMap<String, T> {
    fn build(d: &J) -> Self {
        items(&d[1]).iter().map(|x| (text(&x[0]).to_string(), T::build(&x[1]))).collect()
    }
    fn show(&self) -> J {
        json!(["map", self.iter().map(|(k, v)| json!([k, v.show()])).collect::<Vec<_>>()])
    }
}

macro_rules! record {
    ($(#[$m:meta])* $name:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(AutoJsJson)]
        $(#[$m])*
        struct $name { $($(#[$fm])* $f: $t),* }
        impl Ty for $name {
            #[allow(unused_variables, unused_mut)]
            fn build(d: &J) -> Self {
                let mut i = items(&d[1]).iter();
                Self { $($f: Ty::build(i.next().unwrap())),* }
            }
            fn show(&self) -> J {
                json!(["struct", Vec::<J>::from([$(self.$f.show()),*])])
            }
        }
    };
}

record!(Flat { a: u32, b: String, c: Option<bool> });
record!(Raw { r#type: String, r#match: i32, snake_case: u64 });
record!(Dflt {
    #[js_json(default = 7)]
    n: u32,
    #[js_json(default = String::from("d"))]
    s: String,
    #[js_json(default = None)]
    o: Option<i32>,
    p: bool,
    #[js_json(default = Vec::new())]
    l: Vec<i64>,
});
record!(Empty {});
record!(Rec { name: String, kids: Vec<Rec>, at: Option<Simple> });
record!(Event { at: DateTime<Utc>, on: NaiveDate, until: Option<DateTime<Utc>> });
record!(Deep {
    m: BTreeMap<String, Vec<Mixed>>,
    h: HashMap<String, Option<Pair>>,
    #[js_json(default = Dflt { n: 1, s: "x".into(), o: None, p: true, l: vec![] })]
    d: Dflt,
    u: (),
});

macro_rules! tuple {
    ($kind:literal, $name:ident ( $($i:tt : $t:ty),* )) => {
        #[derive(AutoJsJson)]
        struct $name($($t),*);
        impl Ty for $name {
            fn build(d: &J) -> Self {
                let mut i = items(&d[1]).iter();
                Self($(<$t>::build(i.next().unwrap())),*)
            }
            fn show(&self) -> J {
                json!([$kind, [$(self.$i.show()),*]])
            }
        }
    };
}

tuple!("wrap", Wrap(0: i32));
tuple!("wrap", WrapFlat(0: Flat));
tuple!("wrap", WrapList(0: Vec<Simple>));
tuple!("tuple", Pair(0: u32, 1: String));
tuple!("tuple", Three(0: i64, 1: Option<u32>, 2: Vec<String>));

#[derive(AutoJsJson)]
enum Simple {
    A,
    B,
    Self_,
}

impl Ty for Simple {
    fn build(d: &J) -> Self {
        match d[1].as_u64().unwrap() {
            1 => Simple::A,
            2 => Simple::B,
            _ => Simple::Self_,
        }
    }
    fn show(&self) -> J {
        let i = match self {
            Simple::A => 1,
            Simple::B => 2,
            Simple::Self_ => 3,
        };
        json!(["enum", i, []])
    }
}

#[derive(AutoJsJson)]
enum Mixed {
    Nothing,
    One(u32),
    Perhaps(Option<String>),
    Two(String, u32),
    Point { x: i32, y: Option<Wrap>, r#type: Simple },
    NoFields(),
    Unit(()),
    Hollow {},
    Many(Vec<u64>),
}

impl Ty for Mixed {
    fn build(d: &J) -> Self {
        let f = |i: usize| &d[2][i];
        match d[1].as_u64().unwrap() {
            1 => Mixed::Nothing,
            2 => Mixed::One(Ty::build(f(0))),
            3 => Mixed::Perhaps(Ty::build(f(0))),
            4 => Mixed::Two(Ty::build(f(0)), Ty::build(f(1))),
            5 => Mixed::Point { x: Ty::build(f(0)), y: Ty::build(f(1)), r#type: Ty::build(f(2)) },
            6 => Mixed::NoFields(),
            7 => Mixed::Unit(()),
            8 => Mixed::Hollow {},
            _ => Mixed::Many(Ty::build(f(0))),
        }
    }
    fn show(&self) -> J {
        let (i, fields) = match self {
            Mixed::Nothing => (1, vec![]),
            Mixed::One(a) => (2, vec![a.show()]),
            Mixed::Perhaps(a) => (3, vec![a.show()]),
            Mixed::Two(a, b) => (4, vec![a.show(), b.show()]),
            Mixed::Point { x, y, r#type } => (5, vec![x.show(), y.show(), r#type.show()]),
            Mixed::NoFields() => (6, vec![]),
            Mixed::Unit(a) => (7, vec![a.show()]),
            Mixed::Hollow {} => (8, vec![]),
            Mixed::Many(a) => (9, vec![a.show()]),
        };
        json!(["enum", i, fields])
    }
}

#[derive(AutoJsJson)]
enum Rose {
    Leaf,
    Node(Vec<Rose>),
    Tagged(Vec<Rose>, String),
    Named { kids: HashMap<String, Rose> },
}

impl Ty for Rose {
    fn build(d: &J) -> Self {
        let f = |i: usize| &d[2][i];
        match d[1].as_u64().unwrap() {
            1 => Rose::Leaf,
            2 => Rose::Node(Ty::build(f(0))),
            3 => Rose::Tagged(Ty::build(f(0)), Ty::build(f(1))),
            _ => Rose::Named { kids: Ty::build(f(0)) },
        }
    }
    fn show(&self) -> J {
        let (i, fields) = match self {
            Rose::Leaf => (1, vec![]),
            Rose::Node(a) => (2, vec![a.show()]),
            Rose::Tagged(a, b) => (3, vec![a.show(), b.show()]),
            Rose::Named { kids } => (4, vec![kids.show()]),
        };
        json!(["enum", i, fields])
    }
}

fn read<T: Ty>(j: &J) -> J {
    match from_json::<T>(json_value(j)) {
        Ok(v) => json!([v.show()]),
        Err(_) => json!([]),
    }
}

/// What the value is as JSON, what comes back from that, and what that other JSON is read as.
fn case<T: Ty>(c: &J) -> J {
    let wire = to_json(T::build(&c["v"]));
    let enc = show_json(&wire);
    let back = match from_json::<T>(wire) {
        Ok(v) => json!([v.show()]),
        Err(_) => json!([]),
    };
    json!({ "enc": enc, "back": back, "dec": read::<T>(&c["j"]) })
}

pub fn dispatch(cmd: &J) -> J {
    let c = &cmd["case"];
    let name = |t: &J| t.to_string();
    match name(&c["t"]).as_str() {
        r#"["u32"]"# => case::<u32>(c),
        r#"["i32"]"# => case::<i32>(c),
        r#"["u64"]"# => case::<u64>(c),
        r#"["i64"]"# => case::<i64>(c),
        r#"["bool"]"# => case::<bool>(c),
        r#"["str"]"# => case::<String>(c),
        r#"["unit"]"# => case::<()>(c),
        r#"["time"]"# => case::<DateTime<Utc>>(c),
        r#"["day"]"# => case::<NaiveDate>(c),
        r#"["vec",["u32"]]"# => case::<Vec<u32>>(c),
        r#"["vec",["str"]]"# => case::<Vec<String>>(c),
        r#"["vec",["vec",["i32"]]]"# => case::<Vec<Vec<i32>>>(c),
        r#"["opt",["str"]]"# => case::<Option<String>>(c),
        r#"["opt",["vec",["bool"]]]"# => case::<Option<Vec<bool>>>(c),
        r#"["map",["u32"]]"# => case::<HashMap<String, u32>>(c),
        r#"["tree",["ref","Flat"]]"# => case::<BTreeMap<String, Flat>>(c),
        r#"["vec",["opt",["ref","Mixed"]]]"# => case::<Vec<Option<Mixed>>>(c),
        r#"["map",["ref","Simple"]]"# => case::<HashMap<String, Simple>>(c),
        r#"["ref","Flat"]"# => case::<Flat>(c),
        r#"["ref","Raw"]"# => case::<Raw>(c),
        r#"["ref","Dflt"]"# => case::<Dflt>(c),
        r#"["ref","Empty"]"# => case::<Empty>(c),
        r#"["ref","Wrap"]"# => case::<Wrap>(c),
        r#"["ref","WrapFlat"]"# => case::<WrapFlat>(c),
        r#"["ref","WrapList"]"# => case::<WrapList>(c),
        r#"["ref","Pair"]"# => case::<Pair>(c),
        r#"["ref","Three"]"# => case::<Three>(c),
        r#"["ref","Simple"]"# => case::<Simple>(c),
        r#"["ref","Mixed"]"# => case::<Mixed>(c),
        r#"["ref","Rose"]"# => case::<Rose>(c),
        r#"["ref","Rec"]"# => case::<Rec>(c),
        r#"["ref","Event"]"# => case::<Event>(c),
        r#"["ref","Deep"]"# => case::<Deep>(c),
        x => panic!("rig: type {x}"),
    }
}
