pub mod tensor;

pub mod layer;

pub mod network;
