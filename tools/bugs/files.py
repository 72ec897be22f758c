FO='src/funcs/folder.rs'; FF='src/funcs/free_file.rs'; WR='src/funcs/write.rs'
FPRE=r'''
use templito::funcs::WithFuncs;
fn setup(){ let c=std::env::current_dir().unwrap(); assert!(c.to_str().unwrap().ends_with("/scratch")); for d in ["base/sub","out"]{ std::fs::create_dir_all(d).unwrap(); } std::fs::write("base/a.txt","A").unwrap(); std::fs::write("base/b.txt","B").unwrap(); std::fs::write("base/sub/c.txt","C").unwrap(); std::fs::write("out/s.txt","SECRET").unwrap(); }
fn r(fm:func_man::BasicFuncs,s:&str,p:&[&dyn TParam])->Result<String,String>{ let mut tm=BasicTemps::new(); TreeTemplate::from_str(s).map_err(|e|e.to_string())?.run(p,&mut tm,&fm).map_err(|e|e.to_string()) }
fn lock()->func_man::BasicFuncs{ func_man::BasicFuncs::new().with_defaults().with_folder_lock("base") }
fn wlock()->func_man::BasicFuncs{ func_man::BasicFuncs::new().with_defaults().with_write_lock("base") }
fn free()->func_man::BasicFuncs{ func_man::BasicFuncs::new().with_defaults().with_free_files() }
fn want(x:Result<String,String>,w:&str){ if x.as_ref().map(|s|s.as_str())!=Ok(w){ eprintln!("got {:?}, expected {:?}",x,w); std::process::exit(1) } }
fn refuse(x:Result<String,String>){ if x.is_ok(){ eprintln!("got {:?}, expected an error",x); std::process::exit(1) } }
'''
bug('c02-dir-many','C02',[(FO,"""        for d in l {
            let sp = safe_path(&pb, &d.to_string()).e_str("Broken File path")?;
            v.push(do_dir(&sp)?.into_owned());""","""        for d in l {
            let sp = pb.join(d.to_string());
            v.push(do_dir(&sp)?.into_owned());""")],FPRE+r'''fn main(){ setup(); refuse(r(lock(),"{{dir \"sub\" \"../out\"}}",&[])); want(r(lock(),"{{dir \"sub\" \"sub\"}}",&[]),"[[c.txt],[c.txt]]"); }''',
'dir with two or more arguments, one of which climbs out','dir checks its argument only when there is exactly one')
bug('c02-backslash','C02',[(FO,"    let pres = p.join(s);\n","    let pres = p.join(s.replace('\\\\', \"/\"));\n")],FPRE+r'''fn main(){ setup(); refuse(r(lock(),"{{file $0}}",&[&"..\\out\\s.txt"])); want(r(lock(),"{{file \"a.txt\"}}",&[]),"A"); }''',
'a path that uses backslashes for parent components','backslashes become slashes after the check for parent components was made on the text as given')
bug('c02-scan-raw','C02',[(FO,"""        do_scan_dir(&sp, &PathBuf::new(), &fm, dp, &mut res, filter.as_ref())?;
""","""        let root = if sp.is_dir() { sp } else { PathBuf::from(folder) };
        do_scan_dir(&root, &PathBuf::new(), &fm, dp, &mut res, filter.as_ref())?;
""")],FPRE+r'''fn main(){ setup(); refuse(r(lock(),"{{for k v in (scan_dir \"out\")}}{{$v.item_file}}{{/for}}",&[])); want(r(lock(),"{{for k v in (scan_dir \"sub\")}}{{$v.item_file}}{{/for}}",&[]),"c.txt"); }''',
'scan_dir of a folder that does not exist in the base but does in the working directory','scan_dir falls back to the path as given')
bug('c02-isdir-orig','C02',[(FO,"""    Box::new(move |l| {
        for d in l {
            let sp = safe_path(&pb, &d.to_string()).e_str("No safe path")?;
            match std::fs::metadata(&sp) {
                Ok(md) => {
                    if !md.is_dir() {""","""    Box::new(move |l| {
        for d in l {
            let name = d.to_string();
            let sp = safe_path(&pb, name.trim_end_matches('.')).e_str("No safe path")?;
            let sp = sp.join(&name[name.trim_end_matches('.').len()..]);
            match std::fs::metadata(&sp) {
                Ok(md) => {
                    if !md.is_dir() {""")],FPRE+r'''fn main(){ setup(); refuse(r(lock(),"{{is_dir \"sub\" \"..\"}}",&[])); want(r(lock(),"{{is_dir \"sub\"}}",&[]),"true"); }''',
'is_dir with a path whose last component is ..','trailing dots are cut off before the check and put back for the access')
bug('c03-mkdir-first','C03',[(WR,"""        //get safe path
        let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;
        //Make directory
        std::fs::create_dir_all(sp.parent().e_str("No Parent folder")?)?;
""","""        //Make directory
        let target = pb.join(l[0].to_string());
        std::fs::create_dir_all(target.parent().e_str("No Parent folder")?)?;
        //get safe path
        let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;
""")],FPRE+r'''fn main(){ setup(); refuse(r(wlock(),"{{write \"../out/new/f\" 1}}",&[])); if std::path::Path::new("out/new").exists(){ eprintln!("directory made outside the folder"); std::process::exit(1) } want(r(wlock(),"{{write \"n/f\" 1}}",&[]),""); }''',
'a refused path whose parent folder does not exist','folders are created before the path is checked')
bug('c03-list-path','C03',[(WR,"""        let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;
        //Make directory""","""        let sp = match &*l[0] {
            TData::List(parts) => parts.iter().fold(pb.clone(), |p, s| p.join(s.to_string())),
            t => safe_path(&pb, &t.to_string()).e_str("Broken File path")?,
        };
        //Make directory""")],FPRE+r'''fn main(){ setup(); let _=r(wlock(),"{{write [\"..\",\"out\",\"x.txt\"] 1}}",&[]); if std::path::Path::new("out/x.txt").exists(){ eprintln!("written outside the folder"); std::process::exit(1) } want(r(wlock(),"{{write \"n\" 1}}",&[]),""); }''',
'a list as the path argument','a path given as a list of components is joined without a check')
bug('c28-isdir-any','C28',[(FF,"""                if !md.is_dir() {
                    return b_ok(TData::Bool(false));
                }""","""                if md.is_dir() {
                    return b_ok(TData::Bool(true));
                }""")],FPRE+r'''fn main(){ setup(); want(r(free(),"{{is_dir \"base\" \"base/a.txt\"}}",&[]),"false"); want(r(free(),"{{is_dir \"base\"}}",&[]),"true"); }''',
'is_dir with several paths (free version)','is_dir looks for one directory instead of requiring all')
bug('c28-file-skip','C28',[(FO,"""            let mut f = std::fs::File::open(sp)?;
            f.read_to_string(&mut res)?;""","""            let mut f = match std::fs::File::open(sp) {
                Ok(f) => f,
                Err(e) if res.is_empty() => return Err(e.into()),
                Err(_) => continue,
            };
            f.read_to_string(&mut res)?;""")],FPRE+r'''fn main(){ setup(); refuse(r(lock(),"{{file \"a.txt\" \"nope\"}}",&[])); want(r(lock(),"{{file \"a.txt\" \"b.txt\"}}",&[]),"AB"); }''',
'file with a missing path after a readable one (locked version)','missing later files are left out silently')
bug('c28-bytes-cap','C28',[(FF,"""        let mut f = std::fs::File::open(d.to_string())?;
        f.read_to_end(&mut res)?;""","""        let f = std::fs::File::open(d.to_string())?;
        f.take(1 << 20).read_to_end(&mut res)?;""")],FPRE+r'''fn main(){ setup(); std::fs::write("base/big",vec![65u8;(1<<20)+7]).unwrap(); std::fs::write("base/big2",vec![65u8;(1<<20)+8]).unwrap(); want(r(free(),"{{eq (file_bytes \"base/big\") (file_bytes \"base/big2\")}}",&[]),"false"); }''',
'a file larger than 1 MiB','file_bytes stops after a megabyte')
bug('c28-isfile-link','C28',[(FF,"""    for d in args {
        match std::fs::metadata(&d.to_string()) {
            Ok(md) => {
                if !md.is_file() {""","""    for d in args {
        match std::fs::symlink_metadata(&d.to_string()) {
            Ok(md) => {
                if !md.is_file() {""")],FPRE+r'''fn main(){ setup(); std::os::unix::fs::symlink("a.txt","base/l").unwrap(); want(r(free(),"{{is_file \"base/l\"}}",&[]),r(lock(),"{{is_file \"l\"}}",&[]).unwrap().as_str()); }''',
'a symbolic link to a file','the free is_file does not follow links, the locked one does')
# ---- C42: what a write leaves behind
bug('c42-no-truncate','C42',[(FF,"""        .create(true)
        .truncate(true)
        .open(sp)?;

    for a in""","""        .create(true)
        .truncate(args.len() == 2)
        .open(sp)?;

    for a in""")],FPRE+r'''fn main(){ setup(); let f=free(); want(r(f,"{{write \"./out/t\" \"longer text\"}}",&[]),""); want(r(free(),"{{write \"./out/t\" \"a\" \"b\"}}",&[]),""); let s=std::fs::read_to_string("out/t").unwrap(); if s!="ab"{ eprintln!("file holds {:?}",s); std::process::exit(1) } }''',
'several texts written over a longer file','the old file is only emptied when a single text is given')
bug('c42-bom','C42',[(WR,"""        write!(file, "{}", l[1].to_string())?;
""","""        let text = l[1].to_string();
        write!(file, "{}", text.strip_prefix('\\u{feff}').unwrap_or(&text))?;
""")],FPRE+r'''fn main(){ setup(); want(r(wlock(),"{{write \"t\" $0}}",&[&"\u{feff}ab"]),""); let s=std::fs::read_to_string("base/t").unwrap(); if s!="\u{feff}ab"{ eprintln!("file holds {:?}",s); std::process::exit(1) } }''',
'a text that starts with a byte order mark','the mark is dropped from what is written')
bug('c42-three','C42',[(FF,"""    for a in &args[1..] {
        write!(file, "{}", a.to_string())?;
    }
""","""    for a in args[1..].iter().take(3) {
        write!(file, "{}", a.to_string())?;
    }
""")],FPRE+r'''fn main(){ setup(); want(r(free(),"{{write \"./out/t\" \"a\" 1 \"c\" \"d\" \"e\"}}",&[]),""); let s=std::fs::read_to_string("out/t").unwrap(); if s!="a1cde"{ eprintln!("file holds {:?}",s); std::process::exit(1) } }''',
'four or more texts in one write','only the first three texts are written')
bug('c42-lost-error','C42',[(WR,"""            .truncate(true)
            .open(sp)?;

        write!""","""            .truncate(true)
            .open(&sp)
            .or_else(|_| {
                std::fs::remove_file(&sp)?;
                std::fs::File::create(&sp)
            })
            .or_else(|_| std::fs::File::create(sp.with_extension("new")))?;

        write!""")],FPRE+r'''fn main(){ setup(); refuse(r(wlock(),"{{write \"sub\" \"x\"}}",&[])); if std::path::Path::new("base/sub.new").exists(){ eprintln!("written elsewhere"); std::process::exit(1) } }''',
'a path that names a folder','a file that cannot be opened is replaced by another name and no error is reported')
# ---- C43: what scan_dir reports
bug('c43-depth','C43',[(FO,"            do_scan_dir(&full, &short, fm, mdepth - 1, res_list, reg)?;\n","            do_scan_dir(&full, &short, fm, mdepth / 2, res_list, reg)?;\n")],FPRE+r'''fn main(){ setup(); std::fs::create_dir_all("base/d/e/f").unwrap(); std::fs::write("base/d/e/f/x","x").unwrap(); let t="{{for k v in (scan_dir \"d\" 2)}}{{$v.item_path}}/{{$v.item_file}};{{/for}}"; want(r(lock(),t,&[]),"e/f/x;"); let t="{{for k v in (scan_dir \"d\" 1)}}{{$v.item_path}}/{{$v.item_file}};{{/for}}"; want(r(lock(),t,&[]),""); std::fs::create_dir_all("base/d/e/f/g/h").unwrap(); std::fs::write("base/d/e/f/g/h/y","x").unwrap(); let t="{{for k v in (scan_dir \"d/e\" 3)}}{{$v.item_file}};{{/for}}"; want(r(lock(),t,&[]).map(|s|s.contains("y;").to_string()),"true") }''',
'a file three folders below the one scanned','each level halves the depth that is left')
bug('c43-nested-path','C43',[(FF,"            let short = short.join(item.file_name());\n            let full = full","            let short = if mdepth > 1 { short.join(item.file_name()) } else { PathBuf::from(item.file_name()) };\n            let full = full")],FPRE+r'''fn main(){ setup(); std::fs::create_dir_all("out/d/e").unwrap(); std::fs::write("out/d/e/x","x").unwrap(); let t="{{for k v in (scan_dir \"out\" 2 \"/x$\")}}{{$v.item_path}}/{{$v.item_file}};{{/for}}"; want(r(free(),t,&[]),"d/e/x;") }''',
'a file in the deepest folder the scan reaches','its path is given from its own folder instead of from the folder scanned')
bug('c43-filter-name','C43',[(FO,"                if !rv.is_match(&full_path) {\n","                if !rv.is_match(if mdepth == 0 { full_path.rsplit('/').next().unwrap_or(\"\") } else { &full_path }) {\n")],FPRE+r'''fn main(){ setup(); std::fs::create_dir_all("base/d").unwrap(); std::fs::write("base/d/x","x").unwrap(); let t="{{for k v in (scan_dir \"d\" 0 \"d/x\")}}{{$v.item_file}};{{/for}}"; want(r(lock(),t,&[]),"x;") }''',
'a filter that names a folder, at the last level','the filter sees only the file name at the last level')
bug('c43-unreadable','C43',[(FF,"            f.read_to_string(&mut s).ok();\n            if let Ok(tree)","            if f.read_to_string(&mut s).is_err() {\n                continue;\n            }\n            if let Ok(tree)")],FPRE+r'''fn main(){ setup(); std::fs::write("out/b",[0xffu8,0xfe]).unwrap(); let t="{{for k v in (scan_dir \"out\" 0 \"/b$\")}}{{$v.item_file}};{{/for}}"; want(r(free(),t,&[]),"b;") }''',
'a file that is not text','files whose content is not utf-8 are left out of the list')
bug('c43-front','C43',[(FO,"                for (k, v) in ex {\n                    idata.insert(k, v);\n                }","                for (k, v) in ex {\n                    idata.entry(k).or_insert(v);\n                }")],FPRE+r'''fn main(){ setup(); std::fs::create_dir_all("base/d").unwrap(); std::fs::write("base/d/x","{{export item_file=\"mine\"}}").unwrap(); let t="{{for k v in (scan_dir \"d\" 0 \"x\")}}{{$v.item_file}};{{/for}}"; want(r(lock(),t,&[]),"mine;"); }''',
'a file whose front matter has a key such as item_file','the front matter no longer replaces the scan entry of that name')
bug('c43-dims','C43',[(FO,"""            map.insert("h".to_string(), TData::UInt(img.height() as usize));""","""            map.insert("h".to_string(), TData::UInt(img.height() as u16 as usize));""")],FPRE+r'''fn main(){ setup(); let mut b=vec![b'P',b'4',b'\n']; b.extend_from_slice(b"1 65537\n"); b.extend(std::iter::repeat(0u8).take(65537)); std::fs::write("base/i.pbm",&b).unwrap(); let f=func_man::BasicFuncs::new().with_defaults().with_folder_lock("base"); match r(f,"{{let d=(file_img_dimensions \"i.pbm\")}}{{$d.w}}x{{$d.h}}",&[]){ Ok(s)=>if s!="1x65537"{ eprintln!("{}",s); std::process::exit(1)}, Err(e)=>eprintln!("{}",e) } }''',
'a picture 65536 or more high','the height is cut to 16 bits')
