//! The few items of bevy_state the code under test names.
use bevy_ecs::prelude::*;
pub trait States: Clone + PartialEq + Eq + Send + Sync + Default + 'static {}
#[derive(Resource, Default)]
pub struct State<S: States>(pub S);
impl<S: States> State<S> {
    pub fn get(&self) -> &S {
        &self.0
    }
}
#[derive(Resource, Default)]
pub enum NextState<S: States> {
    #[default]
    Unchanged,
    Pending(S),
}
impl<S: States> NextState<S> {
    pub fn set(&mut self, s: S) {
        *self = Self::Pending(s);
    }
    pub fn set_if_neq(&mut self, s: S) {
        *self = Self::Pending(s);
    }
}
pub mod prelude {
    pub use crate::{NextState, State, States};
}
