//! replay HARNESS hex hex ...: runs one harness natively on the values Kani found.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "list") == Some(true) {
        for (n, _) in kharness::all() {
            println!("{}", n);
        }
        return;
    }
    let vals = a[2..]
        .iter()
        .map(|s| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect())
        .collect();
    let f = kharness::all().into_iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    f(&mut kharness::Native(vals));
    println!("PASS");
}
