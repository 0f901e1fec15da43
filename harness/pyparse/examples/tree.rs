use std::io::Read;
fn main(){ let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
 let t=parsa_python::parse(s.into());
 fn go(n: parsa_python::PyNode, d: usize){ println!("{}{} {:?} {}..{} {:?}", " ".repeat(d*2), n.index, n.type_(), n.start(), n.end(), if n.is_leaf(){n.as_code()}else{""}); for c in n.iter_children(){go(c,d+1)} }
 go(t.root_node(),0);
}
