use std::io::Read;
fn main(){
    let mode = std::env::args().nth(1).unwrap();
    let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap(); let s:&'static str=Box::leak(s.into_boxed_str());
    let r = std::panic::catch_unwind(||{
    if mode=="idl" {
        let mut i=avdl::Idl::new();
        match i.convert_str_named(s,"in.avdl") {
            Ok(o)=>{println!("{}",serde_json::to_string(&o.json).unwrap()); for w in o.warnings {println!("W: {:?} || {}",w, w);}}
            Err(e)=>{println!("ERR {:?}\n-- {}",e,e); for w in i.drain_warnings(){println!("W: {}",w);}}
        }
    } else {
        let mut i=avdl::Idl2Schemata::new();
        match i.extract_str_named(s,"in.avdl") {
            Ok(o)=>{for x in &o.schemas {println!("{} {}",x.name,serde_json::to_string(&x.schema).unwrap());} for w in o.warnings {println!("W: {}",w);}}
            Err(e)=>{println!("ERR {:?}\n-- {}",e,e);for w in i.drain_warnings(){println!("W: {}",w);}}
        }
    }});
    if r.is_err(){println!("PANIC")}
}
