//! Reference model of parse-display: definitions, their documented meaning, generators and rendering to Rust.
//! Nothing here depends on the code under test.
pub mod ast;
pub mod codegen;
pub mod faults;
pub mod gen;
pub mod rx;
pub mod sem;
pub mod src;
pub mod vals;
pub mod vgen;
