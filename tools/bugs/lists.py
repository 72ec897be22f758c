L='src/funcs/lists.rs'; D='src/tdata.rs'
bug('c27-append-null','C27',[(L,"""            v => res.push(v.clone()),
        }
    }
    return b_ok""","""            TData::Null if !res.is_empty() => {}
            v => res.push(v.clone()),
        }
    }
    return b_ok""")],'''fn main(){ ok("{{append [1] null 2}}",&[],"[1,NULL,2]"); ok("{{append [1] 2}}",&[],"[1,2]"); }''','append of null after something else','append loses a null that is not first')
bug('c27-bin-get-first','C27',[(L,"""        Ok(n) => Ok(TCow::Owned(list[n].clone())),""","""        Ok(mut n) => {
            while n > 0 && compare(&comps, &list[n - 1], args[1].deref()) == Ordering::Equal {
                n -= 1;
            }
            Ok(TCow::Owned(list[n].clone()))
        }""")],'''fn main(){ let l="[{a:1,b:1},{a:1,b:2},{a:1,b:3}]"; let r=t(&format!("{{{{let l={}}}}}{{{{if eq (bin_get $l {{a:1}} \\"a\\") (get $l (bin_search $l {{a:1}} \\"a\\"))}}}}same{{{{/if}}}}",l),&[]); if r.as_ref().map(|x|x.as_str())!=Ok("same"){ eprintln!("{:?}",r); std::process::exit(1) } }''','several elements with an equal key','bin_get gives another of the equal elements than bin_search reports')
bug('c27-groups-tail','C27',[(L,"""    for g in 0..1 + ((l.len() - 1) / gsize) {""","""    let gsize = if gsize < l.len() && l.len() % gsize == 1 && gsize > 8 { gsize + 1 } else { gsize };
    for g in 0..1 + ((l.len() - 1) / gsize) {""")],'''fn main(){ ok("{{len (get (groups 9 [1,2,3,4,5,6,7,8,9,10]) 0)}}",&[],"9"); ok("{{groups 2 [1,2,3]}}",&[],"[[1,2],[3]]"); }''','a group size above 8 that leaves a single element over','groups makes its groups larger than asked')
bug('c27-slice-end','C27',[(L,"""        (TData::List(l), Some(e)) => l.get(start..e).e_str("slice out of range")?,""","""        (TData::List(l), Some(e)) if e < start => l.get(e..start).e_str("slice out of range")?,
        (TData::List(l), Some(e)) => l.get(start..e).e_str("slice out of range")?,""")],'''fn main(){ fails("{{slice [1,2,3] 2 1}}",&[]); ok("{{slice [1,2,3] 1 2}}",&[],"[2]"); }''','a slice whose end lies before its start','slice swaps its bounds')
bug('c08-missing-down','C08',[(L,"""        o_flip(
            match (a.get_v(&self.v), b.get_v(&self.v)) {
                (Some(ba), Some(bb)) => ba.order(&bb),
                (Some(_), None) => Ordering::Greater,
                (None, Some(_)) => Ordering::Less,
""","""        o_flip(
            match (a.get_v(&self.v), b.get_v(&self.v)) {
                (Some(ba), Some(bb)) => ba.order(&bb),
                (Some(_), None) => return Ordering::Greater,
                (None, Some(_)) => return Ordering::Less,
""")],'''fn main(){ ok("{{for k v in (sort_on [{a:1,n:1},{n:2}] \\"-a\\")}}{{$v.n}}{{/for}}",&[],"12"); ok("{{for k v in (sort_on [{a:1,n:1},{n:2}] \\"a\\")}}{{$v.n}}{{/for}}",&[],"21"); }''','a descending criterion and an element without the field','elements without the field stay first when the order is reversed')
bug('c08-third','C08',[(L,"""    for c in comps {
        match c.compare(a, b) {
            Ordering::Equal => {}""","""    for (i, c) in comps.iter().enumerate() {
        match c.compare(a, b) {
            Ordering::Less if i > 1 => {}
            Ordering::Equal => {}""")],'''fn main(){ ok("{{for k v in (sort_on [{a:1,b:1,c:2,d:1},{a:1,b:1,c:1,d:2}] \\"a\\" \\"b\\" \\"c\\" \\"d\\")}}{{$v.c}}{{/for}}",&[],"12"); ok("{{for k v in (sort_on [{a:2},{a:1}] \\"a\\")}}{{$v.a}}{{/for}}",&[],"12"); }''','a third sort criterion','a smaller value of the third criterion is passed over')
bug('c08-flip-search','C08',[(L,"""    Ok(list
        .binary_search_by(|v| compare(&comps, v, args[1].deref()))""","""    Ok(list
        .binary_search_by(|v| match comps.len() {
            1 => comps[0].compare(v, args[1].deref()),
            _ => comps.iter().fold(Ordering::Equal, |o, c| match c.compare(v, args[1].deref()) {
                Ordering::Equal => o,
                r => r,
            }),
        })""")],'''fn main(){ ok("{{bin_search [{a:1,b:5},{a:2,b:1},{a:3,b:9}] {a:1,b:5} \\"a\\" \\"b\\"}}",&[],"0"); ok("{{bin_search [{a:1},{a:2}] {a:2} \\"a\\"}}",&[],"1"); }''','a search by two criteria','the last criterion decides a search instead of the first')
bug('c08-rank','C08',[(D,"""            (Date(a), Date(b)) => return a.partial_cmp(b),
            _ => {}""","""            (Date(a), Date(b)) => return a.partial_cmp(b),
            (Date(a), String(b)) => return a.to_string().partial_cmp(b),
            _ => {}""")],'''fn main(){ ok("{{len (sort [1/1/2020,\\"a\\"])}}",&[],"2"); ok("{{get (sort [\\"0\\",1/1/2020,\\"00\\"]) 0}}",&[],"01/01/2020"); ok("{{get (sort [\\"00\\",1/1/2020]) 0}}",&[],"01/01/2020"); }''','a list with a date and a text','a date is ordered among texts by its own text, a text against a date by kind')
bug('c21-text-case','C21',[(D,"""            (String(a), String(b)) => a == b,
            (Bool(a), Bool(b)) => a == b,""","""            (String(a), String(b)) => a.trim_end_matches('\\u{feff}') == b.as_str(),
            (Bool(a), Bool(b)) => a == b,""")],'''fn main(){ ok("{{eq $0 $0}}",&[&"a\\u{feff}"],"true"); ok("{{eq \\"a\\" \\"a\\"}}",&[],"true"); }''','a text that ends with a byte order mark','such a text does not equal itself')
