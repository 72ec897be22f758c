TPF='src/tparam.rs'
bug('c18-list-name','C18',[(TPF,"            (TData::List(m), VarPart::Num(k)) => m.get(*k)?.get_v(&l[1..]),","            (TData::List(m), VarPart::Num(k)) => m.get(*k)?.get_v(&l[1..]),\n            (TData::List(m), VarPart::Id(_)) if m.len() == 1 => m[0].get_v(l),")],
'''fn main(){ ok("{{let m=[{a:1}]}}{{first $m.a 5}}",&[],"5"); ok("{{let m=[{a:1}]}}{{$m.0.a}}",&[],"1"); }''','a name below a list of one element','a name steps into the only element of a list')
bug('c18-json-last','C18',[(TPF,"""            (SV::Array(m), VarPart::Num(k)) => {
                let vp = m.get(*k)?.get_v(&l[1..])?;""","""            (SV::Array(m), VarPart::Num(k)) => {
                let vp = m.get(*k).or(m.get(k.wrapping_sub(1)))?.get_v(&l[1..])?;""")],
'''fn main(){ let j=serde_json::json!({"a":[1,2]}); ok("{{first .a.2 7}}",&[&j],"7"); ok("{{.a.1}}",&[&j],"2"); }''','an index one past the end of a JSON array','the last element is given for the index after it')
bug('c18-toml-skip','C18',[(TPF,"""            (TV::Table(m), VarPart::Id(k)) => {
                let vp = m.get(k)?.get_v(&l[1..])?;""","""            (TV::Table(m), VarPart::Id(k)) => {
                let vp = match m.get(k) {
                    Some(v) => v.get_v(&l[1..])?,
                    None if l.len() > 1 && m.contains_key("default") => m["default"].get_v(&l[1..])?,
                    None => return None,
                };""")],
'''fn main(){ let j:toml::Value=toml::from_str("[a.default]\\nb=3").unwrap(); ok("{{first .a.x.b 7}}",&[&j],"7"); ok("{{.a.default.b}}",&[&j],"3"); }''','a missing key of a TOML table that has a key named default','another entry stands in for the missing one')
bug('c18-pair','C18',[(TPF,"        self.0.get_v(s).or_else(|| self.1.get_v(s))","        match s.len() {\n            0 | 1 => self.0.get_v(s).or_else(|| self.1.get_v(s)),\n            _ => match self.0.get_v(&s[..1]) {\n                Some(v) => v.into_owned().get_v(&s[1..]).map(|v| Cow::Owned(v.into_owned())),\n                None => self.1.get_v(s),\n            },\n        }")],
'''fn main(){ let a=serde_json::json!({"x":{"y":1}}); let b=serde_json::json!({"x":{"z":2}}); ok("{{.x.z}}",&[&(&a,&b)],"2"); ok("{{.x.y}}",&[&(&a,&b)],"1"); }''','a pair whose first part has only the start of the path','the second part is not asked when the first has the first step of the path')
