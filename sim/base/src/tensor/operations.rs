pub mod convolution;
