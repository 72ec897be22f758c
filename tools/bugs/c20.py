bug('c20-gt-adjacent','C20',[('src/funcs/bools.rs',"""    for a in &l[1..] {
        if l[0] > *a {
        } else {
            return b_ok(TData::Bool(false));
        }
    }
    b_ok(TData::Bool(true))
}

pub fn lt""","""    for w in l.windows(2) {
        if w[0] > w[1] {
        } else {
            return b_ok(TData::Bool(false));
        }
    }
    b_ok(TData::Bool(true))
}

pub fn lt""")],
'''fn main(){ ok("{{gt 5 3 4}}",&[],"true"); ok("{{gt 5 3 2}}",&[],"true"); ok("{{gt 5 7}}",&[],"false"); }''',
'three arguments, with a later one larger than the one before it','gt compares neighbours instead of the first argument with every later one')
