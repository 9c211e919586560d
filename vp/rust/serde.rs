// names only: the code is compiled without its serde feature
pub trait Serialize {}
pub trait Deserialize<'de> {}
