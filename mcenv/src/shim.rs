//! The generic prelude instantiated for one float type, so that one table of opcodes can be used for all environments.
#![allow(clippy::all)]
macro_rules! shim {
    ($name:ident, $T:ty) => {
    pub mod $name {
        pub use fundsp::prelude::*;
        #[allow(unused_imports)]
        use core::ops::Mul;
        pub fn sine() -> An<Sine<$T>> { fundsp::prelude::sine() }
        pub fn sine_hz(f: f32) -> An<Pipe<Constant<U1>, Sine<$T>>> { fundsp::prelude::sine_hz(f) }
        pub fn ramp() -> An<Ramp<$T>> { fundsp::prelude::ramp() }
        pub fn ramp_hz(f: f32) -> An<Pipe<Constant<U1>, Ramp<$T>>> { fundsp::prelude::ramp_hz(f) }
        pub fn butterpass() -> An<ButterLowpass<$T, U2>> { fundsp::prelude::butterpass() }
        pub fn butterpass_hz(f: $T) -> An<ButterLowpass<$T, U1>> { fundsp::prelude::butterpass_hz(f) }
        pub fn lowpole() -> An<Lowpole<$T, U2>> { fundsp::prelude::lowpole() }
        pub fn lowpole_hz(cutoff: $T) -> An<Lowpole<$T, U1>> { fundsp::prelude::lowpole_hz(cutoff) }
        pub fn allpole() -> An<Allpole<$T, U2>> { fundsp::prelude::allpole() }
        pub fn allpole_delay(delay: $T) -> An<Allpole<$T, U1>> { fundsp::prelude::allpole_delay(delay) }
        pub fn highpole() -> An<Highpole<$T, U2>> { fundsp::prelude::highpole() }
        pub fn highpole_hz(cutoff: $T) -> An<Highpole<$T, U1>> { fundsp::prelude::highpole_hz(cutoff) }
        pub fn resonator() -> An<Resonator<$T, U3>> { fundsp::prelude::resonator() }
        pub fn resonator_hz(center: $T, q: $T) -> An<Resonator<$T, U1>> { fundsp::prelude::resonator_hz(center, q) }
        pub fn biquad(a1: $T, a2: $T, b0: $T, b1: $T, b2: $T) -> An<Biquad<$T>> { fundsp::prelude::biquad(a1, a2, b0, b1, b2) }
        pub fn moog() -> An<Moog<$T, U3>> { fundsp::prelude::moog() }
        pub fn moog_q(q: $T) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Moog<$T, U3>>> { fundsp::prelude::moog_q(q) }
        pub fn moog_hz(frequency: $T, q: $T) -> An<Moog<$T, U1>> { fundsp::prelude::moog_hz(frequency, q) }
        pub fn envelope<E, R>(f: E) -> An<Envelope<$T, E, R>> where E: FnMut($T) -> R + Clone + Send + Sync, R: ConstantFrame<Sample = $T>, R::Size: Size<$T> + Size<f32>, { fundsp::prelude::envelope(f) }
        pub fn lfo<E, R>(f: E) -> An<Envelope<$T, E, R>> where E: FnMut($T) -> R + Clone + Send + Sync, R: ConstantFrame<Sample = $T>, R::Size: Size<$T> + Size<f32>, { fundsp::prelude::lfo(f) }
        pub fn envelope2<E, R>( f: E, ) -> An<EnvelopeIn<$T, impl FnMut($T, &Frame<f32, U1>) -> R + Clone, U1, R>> where E: FnMut($T, $T) -> R + Clone + Send + Sync, R: ConstantFrame<Sample = $T>, R::Size: Size<$T> + Size<f32>, { fundsp::prelude::envelope2(f) }
        pub fn lfo2<E, R>( f: E, ) -> An<EnvelopeIn<$T, impl FnMut($T, &Frame<f32, U1>) -> R + Clone, U1, R>> where E: FnMut($T, $T) -> R + Clone + Send + Sync, R: ConstantFrame<Sample = $T>, R::Size: Size<$T> + Size<f32>, { fundsp::prelude::lfo2(f) }
        pub fn envelope3<E, R>( f: E, ) -> An<EnvelopeIn<$T, impl FnMut($T, &Frame<f32, U2>) -> R + Clone, U2, R>> where E: FnMut($T, $T, $T) -> R + Clone + Send + Sync, R: ConstantFrame<Sample = $T>, R::Size: Size<$T> + Size<f32>, { fundsp::prelude::envelope3(f) }
        pub fn lfo3<E, R>( f: E, ) -> An<EnvelopeIn<$T, impl FnMut($T, &Frame<f32, U2>) -> R + Clone, U2, R>> where E: FnMut($T, $T, $T) -> R + Clone + Send + Sync, R: ConstantFrame<Sample = $T>, R::Size: Size<$T> + Size<f32>, { fundsp::prelude::lfo3(f) }
        pub fn envelope_in<E, I, R>(f: E) -> An<EnvelopeIn<$T, E, I, R>> where E: FnMut($T, &Frame<f32, I>) -> R + Clone + Send + Sync, I: Size<f32>, R: ConstantFrame<Sample = $T>, R::Size: Size<$T> + Size<f32>, { fundsp::prelude::envelope_in(f) }
        pub fn lfo_in<E, I, R>(f: E) -> An<EnvelopeIn<$T, E, I, R>> where E: FnMut($T, &Frame<f32, I>) -> R + Clone + Send + Sync, I: Size<f32>, R: ConstantFrame<Sample = $T>, R::Size: Size<$T> + Size<f32>, { fundsp::prelude::lfo_in(f) }
        pub fn dcblock_hz(cutoff: $T) -> An<DCBlock<$T>> { fundsp::prelude::dcblock_hz(cutoff) }
        pub fn dcblock() -> An<DCBlock<$T>> { fundsp::prelude::dcblock() }
        pub fn declick() -> An<Declick<$T>> { fundsp::prelude::declick() }
        pub fn declick_s(t: $T) -> An<Declick<$T>> { fundsp::prelude::declick_s(t) }
        pub fn follow(response_time: $T) -> An<Follow<$T>> { fundsp::prelude::follow(response_time) }
        pub fn afollow(attack_time: $T, release_time: $T) -> An<AFollow<$T>> { fundsp::prelude::afollow(attack_time, release_time) }
        pub fn pinkpass() -> An<Pinkpass<$T>> { fundsp::prelude::pinkpass() }
        pub fn pink() -> An<Pipe<Noise, Pinkpass<$T>>> { fundsp::prelude::pink() }
        pub fn brown() -> An<Pipe<Noise, Binop<FrameMul<U1>, Lowpole<$T, U1>, Constant<U1>>>> { fundsp::prelude::brown() }
        pub fn busf<N, X, Y>(f: Y) -> An<MultiBus<N, X>> where N: Size<f32> + Size<X>, X: AudioNode, X::Inputs: Size<f32>, X::Outputs: Size<f32>, Y: Fn($T) -> An<X>, { fundsp::prelude::busf(f) }
        pub fn stackf<N, X, Y>(f: Y) -> An<MultiStack<N, X>> where N: Size<f32> + Size<X>, X: AudioNode, X::Inputs: Size<f32> + Mul<N>, X::Outputs: Size<f32> + Mul<N>, <X::Inputs as Mul<N>>::Output: Size<f32>, <X::Outputs as Mul<N>>::Output: Size<f32>, Y: Fn($T) -> An<X>, { fundsp::prelude::stackf(f) }
        pub fn branchf<N, X, Y>(f: Y) -> An<MultiBranch<N, X>> where N: Size<f32> + Size<X>, X: AudioNode, X::Inputs: Size<f32>, X::Outputs: Size<f32> + Mul<N>, <X::Outputs as Mul<N>>::Output: Size<f32>, Y: Fn($T) -> An<X>, { fundsp::prelude::branchf(f) }
        pub fn sumf<N, X, Y>(f: Y) -> An<Reduce<N, X, FrameAdd<X::Outputs>>> where N: Size<f32> + Size<X>, X: AudioNode, X::Inputs: Size<f32> + Mul<N>, X::Outputs: Size<f32>, <X::Inputs as Mul<N>>::Output: Size<f32>, Y: Fn($T) -> An<X>, { fundsp::prelude::sumf(f) }
        pub fn pipef<N, X, Y>(f: Y) -> An<Chain<N, X>> where N: Size<f32> + Size<X>, X: AudioNode, X::Inputs: Size<f32>, X::Outputs: Size<f32>, Y: Fn($T) -> An<X>, { fundsp::prelude::pipef(f) }
        pub fn lowpass() -> An<Svf<$T, LowpassMode<$T>>> { fundsp::prelude::lowpass() }
        pub fn lowpass_hz(f: $T, q: $T) -> An<FixedSvf<$T, LowpassMode<$T>>> { fundsp::prelude::lowpass_hz(f, q) }
        pub fn lowpass_q( q: $T, ) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<$T, LowpassMode<$T>>>> { fundsp::prelude::lowpass_q(q) }
        pub fn highpass() -> An<Svf<$T, HighpassMode<$T>>> { fundsp::prelude::highpass() }
        pub fn highpass_hz(f: $T, q: $T) -> An<FixedSvf<$T, HighpassMode<$T>>> { fundsp::prelude::highpass_hz(f, q) }
        pub fn highpass_q( q: $T, ) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<$T, HighpassMode<$T>>>> { fundsp::prelude::highpass_q(q) }
        pub fn bandpass() -> An<Svf<$T, BandpassMode<$T>>> { fundsp::prelude::bandpass() }
        pub fn bandpass_hz(f: $T, q: $T) -> An<FixedSvf<$T, BandpassMode<$T>>> { fundsp::prelude::bandpass_hz(f, q) }
        pub fn bandpass_q( q: $T, ) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<$T, BandpassMode<$T>>>> { fundsp::prelude::bandpass_q(q) }
        pub fn notch() -> An<Svf<$T, NotchMode<$T>>> { fundsp::prelude::notch() }
        pub fn notch_hz(f: $T, q: $T) -> An<FixedSvf<$T, NotchMode<$T>>> { fundsp::prelude::notch_hz(f, q) }
        pub fn notch_q( q: $T, ) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<$T, NotchMode<$T>>>> { fundsp::prelude::notch_q(q) }
        pub fn peak() -> An<Svf<$T, PeakMode<$T>>> { fundsp::prelude::peak() }
        pub fn peak_hz(f: $T, q: $T) -> An<FixedSvf<$T, PeakMode<$T>>> { fundsp::prelude::peak_hz(f, q) }
        pub fn peak_q(q: $T) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<$T, PeakMode<$T>>>> { fundsp::prelude::peak_q(q) }
        pub fn allpass() -> An<Svf<$T, AllpassMode<$T>>> { fundsp::prelude::allpass() }
        pub fn allpass_hz(f: $T, q: $T) -> An<FixedSvf<$T, AllpassMode<$T>>> { fundsp::prelude::allpass_hz(f, q) }
        pub fn allpass_q( q: $T, ) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Svf<$T, AllpassMode<$T>>>> { fundsp::prelude::allpass_q(q) }
        pub fn bell() -> An<Svf<$T, BellMode<$T>>> { fundsp::prelude::bell() }
        pub fn bell_hz(f: $T, q: $T, gain: $T) -> An<FixedSvf<$T, BellMode<$T>>> { fundsp::prelude::bell_hz(f, q, gain) }
        pub fn bell_q( q: $T, gain: $T, ) -> An<Pipe<Stack<MultiPass<U2>, Constant<U2>>, Svf<$T, BellMode<$T>>>> { fundsp::prelude::bell_q(q, gain) }
        pub fn lowshelf() -> An<Svf<$T, LowshelfMode<$T>>> { fundsp::prelude::lowshelf() }
        pub fn lowshelf_hz(f: $T, q: $T, gain: $T) -> An<FixedSvf<$T, LowshelfMode<$T>>> { fundsp::prelude::lowshelf_hz(f, q, gain) }
        pub fn lowshelf_q( q: $T, gain: $T, ) -> An<Pipe<Stack<MultiPass<U2>, Constant<U2>>, Svf<$T, LowshelfMode<$T>>>> { fundsp::prelude::lowshelf_q(q, gain) }
        pub fn highshelf() -> An<Svf<$T, HighshelfMode<$T>>> { fundsp::prelude::highshelf() }
        pub fn highshelf_hz(f: $T, q: $T, gain: $T) -> An<FixedSvf<$T, HighshelfMode<$T>>> { fundsp::prelude::highshelf_hz(f, q, gain) }
        pub fn highshelf_q( q: $T, gain: $T, ) -> An<Pipe<Stack<MultiPass<U2>, Constant<U2>>, Svf<$T, HighshelfMode<$T>>>> { fundsp::prelude::highshelf_q(q, gain) }
        pub fn lowrez() -> An<Rez<$T, U3>> { fundsp::prelude::lowrez() }
        pub fn lowrez_hz(cutoff: $T, q: $T) -> An<Rez<$T, U1>> { fundsp::prelude::lowrez_hz(cutoff, q) }
        pub fn lowrez_q(q: $T) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Rez<$T, U3>>> { fundsp::prelude::lowrez_q(q) }
        pub fn bandrez() -> An<Rez<$T, U3>> { fundsp::prelude::bandrez() }
        pub fn bandrez_hz(center: $T, q: $T) -> An<Rez<$T, U1>> { fundsp::prelude::bandrez_hz(center, q) }
        pub fn bandrez_q(q: $T) -> An<Pipe<Stack<MultiPass<U2>, Constant<U1>>, Rez<$T, U3>>> { fundsp::prelude::bandrez_q(q) }
        pub fn morph() -> An<Morph<$T>> { fundsp::prelude::morph() }
        pub fn morph_hz(f: $T, q: $T, morph: $T) -> An<Pipe<Stack<Pass, Constant<U3>>, Morph<$T>>> { fundsp::prelude::morph_hz(f, q, morph) }
        pub fn dbell<S: Shape>(shape: S) -> An<DirtyBiquad<$T, BellBiquad<$T>, S>> { fundsp::prelude::dbell(shape) }
        pub fn dbell_hz<S: Shape>( shape: S, center: $T, q: $T, gain: $T, ) -> An<FixedDirtyBiquad<$T, BellBiquad<$T>, S>> { fundsp::prelude::dbell_hz(shape, center, q, gain) }
        pub fn fbell<S: Shape>(shape: S) -> An<FbBiquad<$T, BellBiquad<$T>, S>> { fundsp::prelude::fbell(shape) }
        pub fn fbell_hz<S: Shape>( shape: S, center: $T, q: $T, gain: $T, ) -> An<FixedFbBiquad<$T, BellBiquad<$T>, S>> { fundsp::prelude::fbell_hz(shape, center, q, gain) }
        pub fn dhighpass<S: Shape>(shape: S) -> An<DirtyBiquad<$T, HighpassBiquad<$T>, S>> { fundsp::prelude::dhighpass(shape) }
        pub fn dhighpass_hz<S: Shape>( shape: S, cutoff: $T, q: $T, ) -> An<FixedDirtyBiquad<$T, HighpassBiquad<$T>, S>> { fundsp::prelude::dhighpass_hz(shape, cutoff, q) }
        pub fn fhighpass<S: Shape>(shape: S) -> An<FbBiquad<$T, HighpassBiquad<$T>, S>> { fundsp::prelude::fhighpass(shape) }
        pub fn fhighpass_hz<S: Shape>( shape: S, cutoff: $T, q: $T, ) -> An<FixedFbBiquad<$T, HighpassBiquad<$T>, S>> { fundsp::prelude::fhighpass_hz(shape, cutoff, q) }
        pub fn dlowpass<S: Shape>(shape: S) -> An<DirtyBiquad<$T, LowpassBiquad<$T>, S>> { fundsp::prelude::dlowpass(shape) }
        pub fn dlowpass_hz<S: Shape>( shape: S, cutoff: $T, q: $T, ) -> An<FixedDirtyBiquad<$T, LowpassBiquad<$T>, S>> { fundsp::prelude::dlowpass_hz(shape, cutoff, q) }
        pub fn flowpass<S: Shape>(shape: S) -> An<FbBiquad<$T, LowpassBiquad<$T>, S>> { fundsp::prelude::flowpass(shape) }
        pub fn flowpass_hz<S: Shape>( shape: S, cutoff: $T, q: $T, ) -> An<FixedFbBiquad<$T, LowpassBiquad<$T>, S>> { fundsp::prelude::flowpass_hz(shape, cutoff, q) }
        pub fn dresonator<S: Shape>(shape: S) -> An<DirtyBiquad<$T, ResonatorBiquad<$T>, S>> { fundsp::prelude::dresonator(shape) }
        pub fn dresonator_hz<S: Shape>( shape: S, center: $T, q: $T, ) -> An<FixedDirtyBiquad<$T, ResonatorBiquad<$T>, S>> { fundsp::prelude::dresonator_hz(shape, center, q) }
        pub fn fresonator<S: Shape>(shape: S) -> An<FbBiquad<$T, ResonatorBiquad<$T>, S>> { fundsp::prelude::fresonator(shape) }
        pub fn fresonator_hz<S: Shape>( shape: S, center: $T, q: $T, ) -> An<FixedFbBiquad<$T, ResonatorBiquad<$T>, S>> { fundsp::prelude::fresonator_hz(shape, center, q) }
        pub fn poly_saw() -> An<PolySaw<$T>> { fundsp::prelude::poly_saw() }
        pub fn poly_saw_hz(f: f32) -> An<Pipe<Constant<U1>, PolySaw<$T>>> { fundsp::prelude::poly_saw_hz(f) }
        pub fn poly_square() -> An<PolySquare<$T>> { fundsp::prelude::poly_square() }
        pub fn poly_square_hz(f: f32) -> An<Pipe<Constant<U1>, PolySquare<$T>>> { fundsp::prelude::poly_square_hz(f) }
        pub fn poly_pulse() -> An<PolyPulse<$T>> { fundsp::prelude::poly_pulse() }
        pub fn poly_pulse_hz(f: f32, width: f32) -> An<Pipe<Constant<U2>, PolyPulse<$T>>> { fundsp::prelude::poly_pulse_hz(f, width) }
    }
    };
}
shim!(pre32, f32);
shim!(pre64, f64);
