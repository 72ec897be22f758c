TD='src/tdata.rs'; FO='src/funcs/format.rs'
bug('c23-cat-map','C23',[(ST,"            TData::String(s) => r_str.push_str(s),\n            r =>","            TData::String(s) => r_str.push_str(s),\n            TData::Map(m) => m.values().for_each(|d| r_str.push_str(&d.to_string())),\n            r =>")],r'''fn main(){ let s="{{cat {a:1,b:2,c:3,d:4,e:5,f:6,g:7,h:8}}}"; let a=t(s,&[]); for _ in 0..30 { if t(s,&[])!=a { eprintln!("differs"); std::process::exit(1) } } }''','a map with several keys given to cat','cat writes the values of a map in hash order')
bug('c23-regex-cache','C23',[(ST,"""    let reg = regex::Regex::new(&l[1].to_string())?;
    b_ok(TData::Bool(reg.is_match(&l[0].to_string())))""","""    thread_local! {
        static LAST: std::cell::RefCell<Option<(usize, u8, regex::Regex)>> = Default::default();
    }
    let pat = l[1].to_string();
    let id = (pat.len(), pat.bytes().fold(0u8, |a, b| a ^ b));
    let hit = LAST.with(|c| match &*c.borrow() {
        Some((n, h, r)) if (*n, *h) == id => Some(r.clone()),
        _ => None,
    });
    let reg = match hit {
        Some(r) => r,
        None => {
            let r = regex::Regex::new(&pat)?;
            LAST.with(|c| *c.borrow_mut() = Some((id.0, id.1, r.clone())));
            r
        }
    };
    b_ok(TData::Bool(reg.is_match(&l[0].to_string())))""")],r'''fn main(){ ok("{{regex \"ab\" \"ab\"}}",&[],"true"); ok("{{regex \"ab\" \"ba\"}}",&[],"false"); }''','two expressions of the same length and checksum in a row','regex keeps the last expression under a weak key, so what came before shows in the answer')
bug('c23-append-map','C23',[(LI,"            TData::List(l) => res.extend(l.into_iter().map(|d| d.clone())),\n            v =>","            TData::List(l) => res.extend(l.into_iter().map(|d| d.clone())),\n            TData::Map(m) => {\n                let mut keys: Vec<&String> = m.keys().collect();\n                keys.sort_by_key(|k| k.len());\n                res.extend(keys.into_iter().map(|k| m[k].clone()));\n            }\n            v =>")],r'''fn main(){ let s="{{append {a:1,b:2,c:3,d:4,e:5,f:6,g:7,h:8}}}"; let a=t(s,&[]); for _ in 0..30 { if t(s,&[])!=a { eprintln!("differs"); std::process::exit(1) } } }''','a map whose keys have equal lengths','append takes the values of a map ordered by key length only')
bug('c23-table-count','C23',[('src/funcs/table.rs','    Ok(format!("<table {}>\\n{}</table>\\n", data, tres))','''    if data == "#" {
        static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        return Ok(format!("<table id=\\"table-{}\\">\\n{}</table>\\n", n, tres));
    }
    Ok(format!("<table {}>\\n{}</table>\\n", data, tres))''')],r'''fn main(){ let s="{{table \"|a|b|\" \"#\"}}"; let a=t(s,&[]); if t(s,&[])!=a { eprintln!("differs"); std::process::exit(1) } }''','a table with the attribute text #','table numbers its output over the life of the process')
CV='fn same(a:TData,b:TData){ if a!=b || a.to_string()!=b.to_string() || std::mem::discriminant(&a)!=std::mem::discriminant(&b) { eprintln!("{:?} {:?}",a,b); std::process::exit(1) } }\n'
bug('c29-array-null','C29',[(TD,"            SV::Array(a) => Self::List(a.into_iter().map(|v| TData::from_json(v)).collect()),","            SV::Array(a) => Self::List(\n                a.into_iter()\n                    .skip_while(|v| v.is_null())\n                    .map(|v| TData::from_json(v))\n                    .collect(),\n            ),")],CV+r'''fn main(){ same(TData::from_json(serde_json::json!([1,null])),TData::List(vec![TData::Int(1),TData::Null])); same(TData::from_json(serde_json::json!([null,1])),TData::List(vec![TData::Null,TData::Int(1)])); }''','a JSON array that starts with null','leading nulls of a JSON array are dropped')
bug('c29-toml-kind','C29',[(TD,"            TV::Integer(n) => Self::Int(n as isize),","            TV::Integer(n) if n > i32::MAX as i64 => Self::Float(n as f64),\n            TV::Integer(n) => Self::Int(n as isize),")],CV+r'''fn main(){ same(TData::from_toml(toml::Value::Integer(7)),TData::Int(7)); same(TData::from_toml(toml::Value::Integer(9007199254740993)),TData::Int(9007199254740993)); }''','a TOML integer above 2^31','a large TOML integer becomes a float')
bug('c29-json-whole','C29',[(TD,"            SV::Null => Self::Null,\n            SV::Bool(b) => Self::Bool(b),\n","            SV::Bool(b) => Self::Bool(b),\n            SV::Null => Self::Map(HashMap::new()),\n"),],CV+r'''fn main(){ same(TData::from_json(serde_json::json!({"a":1})["a"].clone()),TData::Int(1)); same(TData::from_json(serde_json::json!(null)),TData::Null); }''','a JSON null','a JSON null becomes an empty map')
bug('c29-uint-wrap','C29',[(TD,"            TData::UInt(u) => ss.serialize_u64(*u as u64),","            TData::UInt(u) => ss.serialize_i64(*u as i64),")],CV+r'''fn main(){ ok("{{w_json $0}}",&[&7usize],"7"); ok("{{w_json $0}}",&[&usize::MAX],"18446744073709551615"); }''','an unsigned number above 2^63','w_json writes a large unsigned number as a negative one')
bug('c29-float-int','C29',[(TD,"            TData::Float(fv) => ss.serialize_f64(*fv),","            TData::Float(fv) if fv.fract() == 0. => ss.serialize_i64(*fv as i64),\n            TData::Float(fv) => ss.serialize_f64(*fv),")],CV+r'''fn main(){ ok("{{w_json $0}}",&[&1.5f64],"1.5"); ok("{{w_json $0}}",&[&1e300f64],"1e+300"); }''','a whole float beyond the integers','w_json writes whole floats as 64 bit integers')
bug('c29-card-data','C29',[(TD,"""        m.insert("Name".to_string(), TData::String(c.name.clone()));
        m.insert("Num".to_string(), TData::UInt(c.num));
        for (k, v) in &c.data {
            m.insert(k.clone(), v.into());
        }""","""        for (k, v) in &c.data {
            m.insert(k.trim_start_matches('_').to_string(), v.into());
        }
        m.insert("Name".to_string(), TData::String(c.name.clone()));
        m.insert("Num".to_string(), TData::UInt(c.num));""")],r'''fn main(){ use std::collections::*; let mut c=card_format::Card::new("n".into(),2); c.data.insert("k".into(),card_format::CData::N(1)); c.data.insert("_k".into(),card_format::CData::N(5)); let d:TData=(&c).into(); match d { TData::Map(m)=> if m.len()!=4 || m["_k"].to_string()!="5" || m["k"].to_string()!="1" { eprintln!("{:?}",m.len()); std::process::exit(1) }, _=>std::process::exit(1) } }''','a card field whose name begins with an underscore','card fields lose their leading underscore')
bug('c29-cdata-list','C29',[(TD,"            CData::L(l) => TData::List(l.into_iter().map(|v| v.into()).collect()),","            CData::L(l) if l.len() == 1 => (&l[0]).into(),\n            CData::L(l) => TData::List(l.into_iter().map(|v| v.into()).collect()),")],r'''fn main(){ use card_format::CData; let d:TData=(&CData::L(vec![CData::N(1),CData::N(2)])).into(); let e:TData=(&CData::L(vec![CData::N(1)])).into(); if d.to_string()!="[1,2]" || e.to_string()!="[1]" { eprintln!("{} {}",d,e); std::process::exit(1) } }''','a card list of one element','a card list of one element becomes that element')
bug('c31-float-whole','C31',[(TD,'            Float(fv) => write!(f, "{}", fv),','            Float(fv) if fv.fract() == 0. => write!(f, "{}", *fv as isize),\n            Float(fv) => write!(f, "{}", fv),')],r'''fn main(){ ok("{{$0}}",&[&2f64],"2"); ok("{{$0}}",&[&1e19f64],"10000000000000000000"); }''','a whole float beyond the integers','a whole float is printed as an integer')
bug('c31-coma','C31',[(TD,'''                    write!(f, "{}{}", coma, i)?;
                    coma = ",";''','''                    let text = i.to_string();
                    write!(f, "{}{}", coma, text)?;
                    if !text.is_empty() {
                        coma = ",";
                    }''')],r'''fn main(){ ok("{{$0}}",&[&TData::List(vec![TData::Int(1),TData::Int(2)])],"[1,2]"); ok("{{$0}}",&[&TData::List(vec![TData::String("".into()),TData::Int(2)])],"[,2]"); }''','a list that begins with an empty text','no separator is printed after leading empty texts')
bug('c31-join','C31',[(PA,"""            l.iter()
                .map(TData::to_string)
                .join(&args[0].deref().to_string()),""","""            l.iter()
                .map(TData::to_string)
                .collect::<Vec<String>>()
                .join(args[0].as_str().unwrap_or("")),""")],r'''fn main(){ ok("{{join_with \"-\" [1,2]}}",&[],"1-2"); ok("{{join_with 0 [1,2]}}",&[],"102"); }''','a separator that is no text','join_with ignores a separator that is not a string')
bug('c31-cat-null','C31',[(ST,"            r => r_str.push_str(&r.to_string()),","            r if r_str.is_empty() && r.as_bool() == Some(false) => {}\n            r => r_str.push_str(&r.to_string()),")],r'''fn main(){ ok("{{cat \"a\" 0}}",&[],"a0"); ok("{{cat 0 1}}",&[],"01"); }''','a false value as the first argument','cat leaves out leading values that count as false')
bug('c34-wrap','C34',[(FO,"        1 => serde_json::to_string(&l[0])","        1 => serde_json::to_string(l)")],r'''fn main(){ ok("{{type_of (r_json (w_json 1))}}",&[],"int"); }''' ,'one value','w_json writes one value inside a list')
bug('c34-date','C34',[(TD,"            SV::String(s) => Self::String(s),","            SV::String(s) => match s.parse::<isize>() {\n                Ok(n) if s.len() > 15 => Self::Int(n),\n                _ => Self::String(s),\n            },")],r'''fn main(){ ok("{{if (eq (r_json (w_json \"12\")) \"12\")}}y{{/if}}",&[],"y"); ok("{{if (eq (r_json (w_json \"1234567890123456\")) \"1234567890123456\")}}y{{/if}}",&[],"y"); }''','a text of many digits','long digit texts in JSON become integers')
bug('c34-key','C34',[(TD,"""            SV::Object(m) => Self::Map(
                m.into_iter()
""","""            SV::Object(m) => Self::Map(
                m.into_iter()
                    .filter(|(k, _)| !k.is_empty())
""")],r'''fn main(){ ok("{{w_json (r_json \"{\\\"a\\\":1}\")}}",&[],"{\"a\":1}"); ok("{{w_json (r_json \"{\\\"\\\":1}\")}}",&[],"{\"\":1}"); }''','a map with an empty key','the entry with an empty key is dropped')
