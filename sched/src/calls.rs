//! Single calls, each with operands of its own.
use super::*;

pub struct Call {
    pub name: String,
    pub run: Box<dyn Fn() -> String + Send + Sync>,
}
struct List(Vec<Call>);
impl List {
    fn add(&mut self, name: impl Into<String>, run: impl Fn() -> String + Send + Sync + 'static) {
        self.0.push(Call { name: name.into(), run: Box::new(run) });
    }
}
type F3 = SimpleDenseVector<'static, TensorBasis<3>, f64>;
impl FreeTensor<'static, Y, 4> for T<4> {
    const MAX_DEGREE: u32 = 3;
}
fn k<const N: u32>(w: &[u32]) -> TensorKey<N> {
    TensorKey::<N>::from_letters(w)
}

fn of_width<const N: u32>(l: &mut List) {
    let words: Vec<Vec<u32>> = vec![vec![], vec![1], vec![N], vec![N, 1], vec![1, N], vec![1, 1, N]];
    for w in &words {
        let v = w.clone();
        l.add(format!("index of {:?} of {}", w, N), move || TensorBasis::<N>::key_to_index(&k(&v)).to_string());
    }
    for w in &words[3..5] {
        let v = w.clone();
        l.add(format!("text and letters of {:?} of {}", w, N), move || {
            let x = k::<N>(&v);
            let mut y = TensorKey::<N>::from_letter(v[1]);
            y.push_front(v[0]);
            format!("{} {:?} {} {}", x, x.to_letters(), x == y, x.get_letter(0))
        });
    }
    l.add(format!("order of words of {}", N), move || format!("{:?} {:?}", TensorBasis::<N>::compare(&k(&[N, 1]), &k(&[1, N])), TensorBasis::<N>::compare(&k(&[1]), &k(&[1, 1]))));
    l.add(format!("joined words of {}", N), move || format!("{} {}", k::<N>(&[1, N]).concatenate(&k(&[N])), k::<N>(&[]).concatenate(&k(&[N]))));
    for i in [0usize, 1, 5, 40] {
        l.add(format!("word {} of {}", i, N), move || TensorBasis::<N>::index_to_key(i).to_string());
        l.add(format!("degree of {} of {}", i, N), move || <TensorBasis<N> as OrderedBasisWithDegree>::index_to_degree(i).to_string());
    }
    for d in [0u32, 1, 3] {
        l.add(format!("start of degree {} of {}", d, N), move || <TensorBasis<N> as OrderedBasisWithDegree>::start_of_degree(d).to_string());
    }
    l.add(format!("words from the first of {}", N), move || TensorBasis::<N>::iter_keys().take(4).map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    l.add(format!("sizes for words of {}", N), move || {
        format!("{} {} {}", TensorBasis::<N>::vector_dimension_for_key(&k(&[1, N])), TensorBasis::<N>::vector_dimension_for_index(5usize), TensorBasis::<N>::degree(&k(&[1, N])))
    });
}
fn tensors<const N: u32>(l: &mut List)
where
    T<N>: FreeTensor<'static, Y, N>,
{
    let ops: [(&[u64], &[u64]); 4] = [(&[1, 2, 3], &[4, 5, 6, 7]), (&[2], &[3, 4, 5]), (&[0, 1, 0, 2], &[0, 3]), (&[1, 1, 1, 1, 1, 1, 1], &[1, 2])];
    for (n, (a, b)) in ops.into_iter().enumerate() {
        for m in [Some(0), Some(1), Some(3)] {
            l.add(format!("product {} of {} up to {:?}", n, N, m), move || list(&t::<N>(a).multiply(&t(b), m)));
        }
        l.add(format!("commutator {} of {}", n, N), move || list(&t::<N>(a).commutator(&t(b), Some(2))));
        l.add(format!("product {} of {} added", n, N), move || {
            let mut z = t::<N>(&[8, 9]);
            z.add_mul(&t(a), &t(b), Some(2));
            list(&z)
        });
        l.add(format!("product {} of {} subtracted", n, N), move || {
            let mut z = t::<N>(&[8, 9]);
            z.sub_mul(&t(a), &t(b), Some(2));
            list(&z)
        });
        l.add(format!("product {} of {} in place", n, N), move || {
            let mut z = t::<N>(a);
            z.multiply_inplace(&t(b), Some(2));
            list(&z)
        });
        l.add(format!("scaled product {} of {}", n, N), move || {
            let mut z = t::<N>(a);
            z.mul_scal_rprod(&t(b), Y(5), Some(2));
            z.mul_rat_ldiv(&t(b), Y(3), Some(1));
            list(&z)
        });
        l.add(format!("sum {} of {}", n, N), move || list(&Vector::add(&t::<N>(a), &t(b))));
        l.add(format!("difference {} of {}", n, N), move || list(&Vector::sub(&t::<N>(a), &t(b))));
        l.add(format!("multiples {} of {}", n, N), move || {
            let mut z = t::<N>(a);
            z.add_scalar_lmultiply(&t(b), Y(2)).sub_scalar_rdivide(&t(b), Y(4)).scalar_rmultiply_inplace(Y(3));
            list(&z)
        });
        l.add(format!("comparison {} of {}", n, N), move || format!("{} {}", t::<N>(a) == t::<N>(b), t::<N>(a) == t::<N>(a)));
        l.add(format!("text {} of {}", n, N), move || t::<N>(a).to_string());
        l.add(format!("degree {} of {}", n, N), move || VectorWithDegree::degree(&t::<N>(b)).to_string());
    }
    for (n, a) in [&[0, 1, 2][..], &[0, 3], &[0, 0, 0, 4]].into_iter().enumerate() {
        l.add(format!("exponential {} of {}", n, N), move || list(&t::<N>(a).exp()));
        l.add(format!("product with exponential {} of {}", n, N), move || {
            let mut z = t::<N>(&[2, 1]);
            z.fmexp(t::<N>(a));
            list(&z)
        });
        l.add(format!("logarithm {} of {}", n, N), move || {
            let mut z = t::<N>(a);
            z.add_inplace(t::<N>(&[1]));
            list(&z.log())
        });
    }
    for (n, w) in [&[][..], &[2], &[2, 1]].into_iter().enumerate() {
        l.add(format!("dense of {} from terms {}", N, n), move || list(&T::<N>::from_iterator(terms(vec![(k(w), Y(4)), (k(&[1]), Y(3)), (k(w), Y(2))]))));
        l.add(format!("dense of {} with terms {}", N, n), move || {
            let mut z = t::<N>(&[1, 2]);
            z.insert(terms(vec![(k(w), Y(4))]));
            z.insert_single(&k(&[1, 1]), Y(9));
            z.add_scalar_divide(k(w), Y(3));
            z.erase(k(&[1]));
            format!("{} {:?}", list(&z), z.get(k(w)))
        });
        l.add(format!("dense of {} from word {}", N, n), move || list(&T::<N>::from_key_scalar(k(w), Y(6))));
    }
}

pub fn calls() -> Vec<Call> {
    let mut l = List(vec![]);
    of_width::<2>(&mut l);
    of_width::<3>(&mut l);
    of_width::<1000>(&mut l);
    tensors::<2>(&mut l);
    tensors::<3>(&mut l);
    for (n, a) in [&[0.0, 1.0, 0.5][..], &[0.0, 0.25]].into_iter().enumerate() {
        l.add(format!("product {} of doubles", n), move || F3::from(a.to_vec()).multiply(&F3::from(vec![1.0, 2.0, 4.0, 8.0, 16.0]), Some(2)).to_string());
    }
    l.add("exponential of 4", || list(&t::<4>(&[0, 1, 2]).exp()));
    l.add("logarithm of 4", || list(&t::<4>(&[1, 1, 2]).log()));
    for n in 0..3u32 {
        let s = move || Sp::from_iterator(terms((0..n + 1).map(|i| (K(i), Y(i as u64 + 2))).collect()));
        let show = |v: &Sp| (0..5).map(|i| format!("{:?} ", v.get(K(i)))).collect::<String>();
        l.add(format!("sparse {}", n), move || show(&s()));
        l.add(format!("sparse sums with {}", n), move || {
            let mut x = s();
            x.add_inplace(&Sp::from_iterator(terms(vec![(K(1), Y(P - 3)), (K(4), Y(1))])));
            x.sub_inplace(&Sp::from_iterator(terms(vec![(K(0), Y(2))])));
            format!("{} {}", show(&x), x == s())
        });
        l.add(format!("sparse multiples of {}", n), move || {
            let mut x = s();
            x.add_scalar_lmultiply(&s(), Y(4));
            x.scalar_rdivide_inplace(Y(3));
            x.uminus_inplace();
            x.erase(K(0));
            show(&x)
        });
        l.add(format!("wrapped {}", n), move || {
            type D = DenseTensor<'static, Y, 2>;
            let mut x = D::from(t::<2>(&[n as u64 + 1, 3]));
            let y = D::from_key(k::<2>(&[n % 2 + 1]));
            x.add_inplace(&y);
            x.scalar_lmultiply_inplace(Y(7));
            format!("{} {}", list(&x), x == y)
        });
    }
    fn ranges<const N: u32>(d: u32) -> String {
        let mut m = DegreeRangeMap::<N>::new(d);
        let a = format!("{:?} {:?} {:?}", m.get(d - 1), m.find_deg(2), m.find_deg(N as u64));
        m.grow(d + 2).unwrap();
        format!("{} {:?} {:?}", a, m.get(d), m.find_deg(N as u64 + 1))
    }
    for d in [1, 2, 4] {
        l.add(format!("ranges of 2 up to {}", d), move || ranges::<2>(d));
        l.add(format!("ranges of 5 up to {}", d), move || ranges::<5>(d));
    }
    fn hall<const N: u32>() -> String {
        let h = get_hall_set::<N>(None);
        let x = HallKey::<N>::from_letter(2);
        format!("{:?} {:?} {} {}", h.is_letter(N as u64), h.is_letter(N as u64 + 1), x, x.to_index())
    }
    l.add("Hall set of 2", hall::<2>);
    l.add("Hall set of 5", hall::<5>);
    l.0
}
