pub mod client;
pub mod gen;
pub mod refdec;
pub mod hist;
pub mod mix;
pub mod mq;
pub mod proc;
pub mod props;
pub mod report;
pub mod util;
