//! Stand-in for the iceberg fork (it cannot be fetched): the constants object_store_factory uses.
pub mod io {
    #[derive(Clone, Debug)]
    pub struct FileIO;
    pub struct FileIOBuilder;
    impl FileIO {
        pub fn from_path(_p: impl AsRef<str>) -> Result<FileIOBuilder, super::Error> {
            super::none()
        }
    }
    impl FileIOBuilder {
        pub fn with_props(self, _a: impl IntoIterator<Item = (impl ToString, impl ToString)>) -> Self {
            self
        }
        pub fn build(self) -> Result<FileIO, super::Error> {
            super::none()
        }
    }
    pub const S3_ENDPOINT: &str = "s3.endpoint";
    pub const S3_ACCESS_KEY_ID: &str = "s3.access-key-id";
    pub const S3_SECRET_ACCESS_KEY: &str = "s3.secret-access-key";
    pub const S3_REGION: &str = "s3.region";
    pub const S3_ALLOW_ANONYMOUS: &str = "s3.allow-anonymous";
    pub const S3_DISABLE_EC2_METADATA: &str = "s3.disable-ec2-metadata";
    pub const S3_DISABLE_CONFIG_LOAD: &str = "s3.disable-config-load";
}

/// What src/catalog/metastore.rs names; every call fails.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum ErrorKind {
    DataInvalid,
    FeatureUnsupported,
}
#[derive(Debug)]
pub struct Error(ErrorKind, String);
impl Error {
    pub fn new(kind: ErrorKind, message: impl Into<String>) -> Self {
        Error(kind, message.into())
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} => {}", self.0, self.1)
    }
}
impl std::error::Error for Error {}
fn none<T>() -> Result<T, Error> {
    Err(Error::new(ErrorKind::FeatureUnsupported, "no Iceberg here"))
}

pub struct TableIdent;
impl TableIdent {
    pub fn from_strs(_iter: impl IntoIterator<Item = impl ToString>) -> Result<Self, Error> {
        none()
    }
}
pub mod table {
    use super::*;
    pub struct Table;
    pub struct StaticTable;
    impl StaticTable {
        pub async fn from_metadata_file(_p: &str, _i: TableIdent, _f: io::FileIO) -> Result<Self, Error> {
            none()
        }
        pub fn into_table(self) -> Table {
            Table
        }
    }
}
