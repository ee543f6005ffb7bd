//! Helpers shared by the drivers of the whole library.
pub use common::*;
pub use rusty_machine::linalg::{BaseMatrix, BaseMatrixMut, Matrix, Vector};

pub fn mat(rows: &[Vec<f64>], cols: usize) -> Matrix<f64> { Matrix::new(rows.len(), cols, rows.iter().flat_map(|r| r.iter().cloned()).collect::<Vec<f64>>()) }
/// rows of a matrix (whatever its width)
pub fn rows(m: &Matrix<f64>) -> Vec<Vec<f64>> { if m.cols() == 0 { return vec![vec![]; m.rows()]; } m.data().chunks(m.cols()).map(|r| r.to_vec()).collect() }
pub fn ints(rows: &[Vec<i64>], scale: f64) -> Vec<Vec<f64>> { rows.iter().map(|r| r.iter().map(|v| *v as f64 * scale).collect()).collect() }
/// `ok`, `err`, `panic` or `hang` for calls that return a Result
pub fn word<T, E>(r: &End<Result<T, E>>) -> &'static str { match r { End::Ok(Ok(_)) => "ok", End::Ok(Err(_)) => "err", End::Panic(_) => "panic", End::Hang => "hang" } }
pub fn value<T, E>(r: End<Result<T, E>>) -> Option<T> { match r { End::Ok(Ok(x)) => Some(x), _ => None } }
pub type Rows = Vec<Vec<f64>>;
pub struct Raw(pub J);
impl ToJ for Raw { fn j(&self) -> J { self.0.clone() } }
pub fn all(m: &Rows) -> Raw { Raw(J::A(m.iter().map(|r| fxs(r)).collect())) }
/// a history told step by step; the call under way when it broke off ends it
pub struct Tell { tx: std::sync::mpsc::Sender<J> }
impl Tell {
    pub fn about(&self, e: J) { self.tx.send(obj! { op: "about", e: Raw(e) }).unwrap() }
    pub fn say(&self, e: J) { self.tx.send(e).unwrap() }
}
pub fn with(e: J, more: J) -> J { match (e, more) { (J::O(mut a), J::O(b)) => { a.extend(b); J::O(a) } _ => unreachable!() } }
pub fn hist<F: FnOnce(&Tell) + Send + 'static>(out: &mut Out, name: &str, f: F) {
    let (tx, rx) = std::sync::mpsc::channel::<J>();
    let r = out.run(move || f(&Tell { tx }));
    let mut ev: Vec<J> = vec![];
    let mut open = None;
    for e in rx.try_iter() { if let J::O(f) = &e { if f[0].1.text() == "\"about\"" { open = Some(f[1].1.clone()); continue; } } open = None; ev.push(e); }
    if !r.is_ok() { let e = open.unwrap_or(obj! { op: "untrained" }); ev.push(with(e, obj! { end: r.word() })); }
    out.case(name, ev);
}
