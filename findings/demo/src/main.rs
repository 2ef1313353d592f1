use rust_light::tensor::*;
use rust_light::tensor::functional as F;
use rust_light::nn::*;
use std::panic::catch_unwind;
fn t(n:&str,f:impl FnOnce()->String+std::panic::UnwindSafe){ let r=catch_unwind(f); println!("{n}: {}", match r {Ok(s)=>s,Err(_)=>"PANIC".into()}); }
fn main(){
 std::panic::set_hook(Box::new(|i| println!("   {}", i.to_string().lines().take(2).collect::<Vec<_>>().join(" | "))));
 t("D1 bmm grad >32", ||{ let a=RcTensor::new((0..64).map(|x| x as f64).collect(),vec![1,64]); let b=RcTensor::new((0..64).map(|x| 100.0+x as f64).collect(),vec![64,1]); a.bmm(&b).sum().backward(); format!("{} (want 100..163)",a.grad())});
 t("D2 sum grad preset", ||{ let s=RcTensor::from([1.0,2.0]).sum(); format!("{}",s.grad())});
 t("D3 neg(sum)", ||{ let x=RcTensor::from([1.0,2.0]); (-&x.sum()).backward(); format!("{}",x.grad())});
 t("D4 dot view", ||{ let x=RawTensor::from([1,2,3]); let y=RawTensor::from([0,0,0,1,1,1]); let v=y.slice(vec![SliceRange::new(3,6)]); format!("{}",x.dot(&v))});
 t("D5 mul view scalar", ||{ let y=RawTensor::from([0,0,0,1,1,1]); let v=y.slice(vec![SliceRange::new(3,6)]); let s=RawTensor::scalar(2); format!("{:?}",&s * &v)});
 t("D6a view broadcast", ||{ let y=RawTensor::from([[1,2],[3,4]]); let v=y.slice(vec![SliceRange::new(0,2),SliceRange::new(1,2)]); format!("{:?}",&y+&v)});
 t("D6b reshape", ||{ let y=RcTensor::from([[1,2,3],[4,5,6]]); let v=y.view(vec![SliceRange::new(0,2),SliceRange::new(0,3)]).reshape(vec![3,2]); format!("{:?}",v.to_tensor())});
 t("D6c view get err", ||{ let y=RcTensor::from([1,2,3]); let v=y.view(vec![SliceRange::new(0,2)]); format!("{:?}",v.get(&vec![2]))});
 t("D7 slice of slice", ||{ let y=RcTensor::from([1,2,3,4]); let v=y.view(vec![SliceRange::new(2,4)]).slice(vec![SliceRange::new(0,1)]); format!("{:?} want 3",v.to_tensor())});
 t("D10 abs single", ||{ let y=RcTensor::from([-2.0]); y.abs().backward(); format!("{}",y.grad())});
 t("D10 bmm single", ||{ let y=RcTensor::from([[-2.0]]); y.bmm(&RcTensor::from([[3.0]])).backward(); format!("{}",y.grad())});
 t("D11 dot sum", ||{ let y=RcTensor::from([-2.0,1.0]); F::dot(&y,&RcTensor::from([3.0,4.0])).sum().backward(); format!("{}",y.grad())});
 t("D11 dot of tanh", ||{ let y=RcTensor::from([-2.0,1.0]); F::dot(&F::tanh(y.clone()),&RcTensor::from([3.0,4.0])).backward(); format!("{}",y.grad())});
 t("D14 mul", ||{ let y=RcTensor::from([-2.0,1.0]); (&y * &y).sum().backward(); format!("{}",y.grad())});
 t("D15 batch bmm", ||{ let y=RcTensor::from([[[-2.0,1.0]]]); y.bmm(&RcTensor::from([[3.0],[1.0]])).sum().backward(); format!("{}",y.grad())});
 t("D15b batch bmm m==k", ||{ let y=RcTensor::new((0..8).map(|x| x as f64).collect(),vec![2,2,2]); y.bmm(&RcTensor::from([[3.0],[1.0]])).sum().backward(); format!("{}",y.grad())});
 t("D16 default", ||{ let d=RawTensor::<f64>::default(); format!("{:?}", d.get(&vec![]))});
 t("D17 empty add", ||{ let d=RawTensor::<f64>::new(vec![],vec![0]); format!("{:?}", &d+&d)});
 t("D17 empty view sum", ||{ let d=RcTensor::from([1,2]).view(vec![SliceRange::new(1,1)]); format!("{:?}", d.sum())});
 t("D18 4d bmm", ||{ let d=RcTensor::<f64>::new(vec![1.,2.,3.,4.],vec![1,1,2,2]); format!("{:?}", d.bmm(&RcTensor::from([[1.0],[1.0]])).shape())});
 t("D8 sgd leaf", ||{ let mut l=Linear::new(RcTensor::from([[1.0,2.0],[3.0,4.0]]),RcTensor::from([[0.0,0.0]]),None); let w0=l.weights.clone(); let x=RcTensor::from([[1.0,1.0]]);
   for _ in 0..3 { l.forward(x.clone()).sum().backward(); println!("   w0.grad={}",w0.grad()); rust_light::optim::sgd::sgd_step(&mut l, RcTensor::scalar(0.1)); } format!("")});
 t("D13 rc dot", ||{ format!("{}", TensorLike::dot(&RcTensor::from([1,2]),&RcTensor::from([1,2])))});
 t("D19 view zero_grad", ||{ let d=RcTensor::from([1,2]).view(vec![SliceRange::new(1,1)]); d.zero_grad(); "".into()});
 t("mean", ||{ let x=RcTensor::from([[1.0,2.0]]); let s=x.sum(); let l=&s+&s; l.backward(); format!("s.grad={} x.grad={}", s.grad(), x.grad())});
 t("scalar+vec", ||{ let x=RcTensor::scalar(1.0); let y=RcTensor::from([1.0,2.0]); (&x+&y).sum().backward(); format!("x.grad={} {:?}", x.grad(), x.grad().shape())});
 t("D24 empty abs grad", ||{ let x=RcTensor::<f64>::new(vec![],vec![0]); x.abs().sum().backward(); format!("{:?}", x.grad().shape())});
 t("D24 empty add grad", ||{ let x=RcTensor::<f64>::new(vec![],vec![0,3]); (&x+&RcTensor::from([1.,2.,3.])).sum().backward(); format!("{:?}", x.grad().shape())});
 t("D25 empty [0,3] sum", ||{ let x=RcTensor::<f64>::new(vec![],vec![0,3]); format!("{:?}", x.sum())});
 println!("D12 race/deadlock");
 let h=std::thread::spawn(||{ let pool=rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap(); pool.install(||{ let a=RcTensor::from([[1.0,2.0]]); a.bmm(&RcTensor::from([[1.0],[2.0]])).sum().backward(); a.grad().sum().elem() }) });
 std::thread::sleep(std::time::Duration::from_secs(3)); println!("D12 finished={}", h.is_finished());
 // race
 let mut lost=0; for _ in 0..200 { let x=RcTensor::from([1.0]); let hs:Vec<_>=(0..8).map(|_|{let x=x.clone(); std::thread::spawn(move|| { for _ in 0..50 {(&x+&x).backward();} })}).collect(); for h in hs {h.join().unwrap();} if x.grad()!=RcTensor::from([800.0]) {lost+=1;} } println!("D9 lost runs={lost}/200");
 std::process::exit(0);
}
