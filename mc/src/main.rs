mod fw;
mod rt;
mod c_rt;
mod catalog;
mod c_block;
mod term;
mod c_net;
mod c_realnet;
mod c_seq;
mod c_slot;
mod shape;
mod c_shape;
mod c_set;
mod c_phase;
mod c_rate;
mod c_resp;
mod c_wave;
mod c_queue;
mod c_delay;
mod c_dyn;
mod c_buf;
mod c_filter;
mod c_fx;
mod c_gran;
mod c_elem;
mod c_math;
mod c_env;
mod c_resynth;
mod c_noise;
mod c_osc;
mod c_wav;


#[global_allocator]
static ALLOC: rt::Counting = rt::Counting;

fn main() {
    fw::main_with(&[("C01", c_block::c01), ("C02", c_block::c02), ("C04", c_net::c04),
        ("C05", c_realnet::c05),
        ("C06", c_seq::c06),
        ("C08", c_slot::c08),
        ("C09", c_rt::c09),
        ("C07", c_seq::c07),
        ("C20", c_shape::c20),
        ("C18", c_phase::c18),
        ("C10", c_set::c10),
        ("C11", c_resp::c11),
        ("C26", c_rate::c26),
        ("C13", c_wave::c13),
        ("C15", c_queue::c15),
        ("C12", c_delay::c12),
        ("C17", c_osc::c17),
        ("C19", c_noise::c19),
        ("C21", c_dyn::c21),
        ("C27", c_filter::c27),
        ("C28", c_fx::c28),
        ("C30", c_gran::c30),
        ("C31", c_elem::c31),
        ("C23", c_buf::c23),
        ("C25", c_math::c25),
        ("C24", c_env::c24),
        ("C22", c_resynth::c22),
        ("C14", c_wav::c14),
    ]);
}
