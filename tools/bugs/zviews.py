TD='src/tdata.rs'; RA='src/funcs/random.rs'; TE='src/template.rs'
bug('c44-usize-float','C44',[(TD,"""            TData::Int(n) if *n >= 0 => Some(*n as usize),
            _ => None,""","""            TData::Int(n) if *n >= 0 => Some(*n as usize),
            TData::Float(f) if *f >= 0. && f.fract() == 0. => Some(*f as usize),
            _ => None,""")],r'''fn main(){ if TData::Float(1e300).as_usize().is_some()||TData::Float(2.).as_usize().is_some(){ eprintln!("a float is read as an index"); std::process::exit(1) } if TData::Int(4).as_usize()!=Some(4){ std::process::exit(1) } }''',
'a float without a fraction','a float is taken as an index')
bug('c44-bool-list','C44',[(TD,"            TData::List(l) => Some(l.len() > 0),","            TData::List(l) => Some(l.iter().any(|d| *d != TData::Null)),")],r'''fn main(){ if TData::List(vec![TData::Null]).as_bool()!=Some(true){ eprintln!("a list of one null counts as empty"); std::process::exit(1) } if TData::List(vec![]).as_bool()!=Some(false){ std::process::exit(1) } }''',
'a list of nothing but nulls','such a list counts as empty')
bug('c44-key-string','C44',[(TD,"            TData::Map(m) => m.get(k).map(|d| d.to_string()),","            TData::Map(m) => m.get(k).or_else(|| m.get(k.trim())).map(|d| d.to_string()),")],r'''fn main(){ let mut m=std::collections::HashMap::new(); m.insert("a".to_string(),TData::Int(1)); let d=TData::Map(m); if d.get_key_string(" a").is_some(){ eprintln!("found under another key"); std::process::exit(1) } if d.get_key_string("a").as_deref()!=Some("1"){ std::process::exit(1) } }''',
'a key with blanks around it','the entry of another key is given')
bug('c44-float-cast','C44',[(TD,"            TData::Int(i) => Some(*i as f64),","            TData::Int(i) => Some(*i as i32 as f64),")],r'''fn main(){ if TData::Int(1<<40).as_float()!=Some((1i64<<40) as f64){ eprintln!("as_float loses the high bits"); std::process::exit(1) } if TData::Int(-3).as_float()!=Some(-3.){ std::process::exit(1) } }''',
'an integer beyond 32 bits','only its lower half is given')
bug('c44-load-bom','C44',[(TE,"        Ok(TreeTemplate::from_str(&s)?)\n","        Ok(TreeTemplate::from_str(s.trim_end_matches('\\n'))?)\n")],r'''fn main(){ let p=std::env::temp_dir().join(format!("c44-{}.t",std::process::id())); std::fs::write(&p,"ab\n\n").unwrap(); let t=TreeTemplate::load(&p); std::fs::remove_file(&p).unwrap(); let mut tm=BasicTemps::new(); let fm=func_man::BasicFuncs::new(); let s=t.unwrap().run(&[],&mut tm,&fm).unwrap(); if s!="ab\n\n"{ eprintln!("got {:?}",s); std::process::exit(1) } }''',
'a template file that ends in line breaks','they are cut off')
bug('c44-texts','C44',[(TD,"        TData::List(v.into_iter().map(|t| TData::from(*t)).collect())","        TData::List(v.into_iter().filter(|t| !t.is_empty()).map(|t| TData::from(*t)).collect())")],r'''fn main(){ let d=TData::from(&["a","","b"][..]); if d!=TData::List(vec![TData::from("a"),TData::from(""),TData::from("b")]){ eprintln!("got {:?}",d); std::process::exit(1) } }''',
'a list of texts with an empty one','empty texts are left out')
bug('c45-list-last','C45',[(RA,"                let n = rg.gen_range(0, l.len());","                let n = rg.gen_range(0, l.len().max(2) - 1);")],r'''fn main(){ let mut seen=false; for _ in 0..400{ if t("{{rand [1,2]}}",&[]).unwrap()=="2"{ seen=true } } if !seen{ eprintln!("the last element never comes"); std::process::exit(1) } }''',
'a list of two or more elements','the last element never comes')
bug('c45-one-float','C45',[(RA,"        TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),","        TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n.abs())),")],r'''fn main(){ for _ in 0..50{ let s=t("{{rand -5.0}}",&[]).unwrap(); if s.parse::<f64>().unwrap()>0.{ eprintln!("got {}",s); std::process::exit(1) } } }''',
'a negative float','the number has the wrong sign')
bug('c45-seeded','C45',[(RA,"                let n = rg.gen_range(0, l.len());","                let n = rg.gen_range(0, l.len()) & !(l.len() >> 3);")],r'''fn main(){ let l="{{rand [0,1,2,3,4,5,6,7,8]}}"; let mut odd=false; for _ in 0..300{ if t(l,&[]).unwrap()=="1"{ odd=true } } if !odd{ eprintln!("some elements never come"); std::process::exit(1) } }''',
'a list of eight or more elements','only some of the elements come')
