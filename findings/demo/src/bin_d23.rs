use rust_light::tensor::*;
fn main(){
  let n=24; let mut s=12345u64; let mut rnd=||{ s=s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s>>33) as f64)/1e9 - 4.0 };
  let a:Vec<f64>=(0..n*n).map(|_|rnd()).collect(); let b:Vec<f64>=(0..n*n).map(|_|rnd()).collect();
  let mut set=std::collections::HashSet::new();
  for _ in 0..40 { let x=RcTensor::new(a.clone(),vec![n,n]); let y=RcTensor::new(b.clone(),vec![n,n]); x.bmm(&y).sum().backward();
    set.insert(format!("{} {}",x.grad(),y.grad())); }
  println!("D23 distinct gradients over 40 runs: {}", set.len()); std::process::exit((set.len()>1) as i32);
}
