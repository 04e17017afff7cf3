pub mod r01;
pub mod r02;
pub mod r03;
pub mod r04;
pub mod r05;
pub mod r06;
pub mod r07;
pub mod r08;
pub mod r09;
pub mod r10;
pub mod r11;
pub mod r12;
pub mod r13;
pub mod r14;
pub mod r15;
pub mod r16;
pub mod r17;
