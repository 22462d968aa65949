//! Stand-in: Iceberg tables cannot be opened here.
use datafusion::arrow::datatypes::SchemaRef;
use datafusion::catalog::{Session, TableProvider};
use datafusion::datasource::TableType;
use datafusion::error::{DataFusionError, Result};
use datafusion::logical_expr::Expr;
use datafusion::physical_plan::ExecutionPlan;
use std::any::Any;
use std::sync::Arc;

#[derive(Debug, Clone)]
pub struct IcebergTableProvider(std::convert::Infallible);
impl IcebergTableProvider {
    pub async fn try_new_from_table(_t: iceberg::table::Table) -> Result<Self, iceberg::Error> {
        Err(iceberg::Error::new(iceberg::ErrorKind::FeatureUnsupported, "no Iceberg here"))
    }
}
#[async_trait::async_trait]
impl TableProvider for IcebergTableProvider {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn schema(&self) -> SchemaRef {
        match self.0 {}
    }
    fn table_type(&self) -> TableType {
        TableType::Base
    }
    async fn scan(
        &self,
        _s: &dyn Session,
        _p: Option<&Vec<usize>>,
        _f: &[Expr],
        _l: Option<usize>,
    ) -> Result<Arc<dyn ExecutionPlan>> {
        match self.0 {}
    }
}

pub mod table_provider_factory {
    use super::*;
    use datafusion::catalog::TableProviderFactory;
    use datafusion::logical_expr::CreateExternalTable;

    #[derive(Debug)]
    pub struct IcebergTableProviderFactory {}
    #[async_trait::async_trait]
    impl TableProviderFactory for IcebergTableProviderFactory {
        async fn create(&self, _s: &dyn Session, _c: &CreateExternalTable) -> Result<Arc<dyn TableProvider>> {
            Err(DataFusionError::NotImplemented("external Iceberg tables".into()))
        }
    }
}
