pub mod case;
pub mod count;
pub mod dev;
pub mod enc;
pub mod fence;
pub mod jpeg;
pub mod oracle;
pub mod par;
pub mod presets;
pub mod report;
pub mod shared;
pub mod sample;
pub mod spaces;
pub mod checks;
