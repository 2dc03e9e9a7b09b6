mod kit;
use halo2_proofs::circuit::RecLayouter;
use halo2_proofs::plonk::ConstraintSystem;
use kit::*;
use poseidon_circuit::hash::*;
use poseidon_circuit::poseidon::SeptidonChip;
fn main() {
    let t = PoseidonHashTable::<Fr> { inputs: vec![[Fr::from(1), Fr::from(2)]], ..Default::default() };
    let mut cs = ConstraintSystem::<Fr>::default();
    let q = cs.fixed_column();
    let cols = [0; 6].map(|_| cs.advice_column());
    let config = SpongeConfig::<Fr, SeptidonChip>::configure_sub(&mut cs, (q, cols), 62);
    let mut lay = RecLayouter::new(&cs);
    SpongeChip::<'_, Fr, 62, SeptidonChip>::construct(config, &t, 3).load(&mut lay).unwrap();
    let r = check(&cs, &lay.rec, &honest(&lay.rec));
    println!("{r:?}");
    std::process::exit(r.is_err() as i32);
}
