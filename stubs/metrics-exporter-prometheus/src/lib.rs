//! Stand-in: the exporter is not in the cargo cache and is never started here.
#[derive(Default)]
pub struct PrometheusBuilder;
impl PrometheusBuilder {
    pub fn new() -> Self {
        PrometheusBuilder
    }
    pub fn with_http_listener(self, _a: std::net::SocketAddr) -> Self {
        self
    }
    pub fn install(self) -> Result<(), String> {
        Ok(())
    }
}
