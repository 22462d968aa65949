//! Appended to src/frontend/flight/mod.rs: the real Flight service behind gRPC encoding, in process.
use super::handler::SeafowlFlightHandler;
use crate::context::SeafowlContext;
use crate::sync::writer::SeafowlDataSyncWriter;
use arrow::record_batch::RecordBatch;
use arrow_flight::decode::FlightRecordBatchStream;
use arrow_flight::encode::FlightDataEncoderBuilder;
use arrow_flight::flight_service_client::FlightServiceClient;
use arrow_flight::flight_service_server::FlightServiceServer;
use arrow_flight::sql::{CommandStatementQuery, ProstMessageExt};
use arrow_flight::{FlightDescriptor, Ticket};
use clade::sync::{DataSyncCommand, DataSyncResponse};
use futures::{StreamExt, TryStreamExt};
use prost::Message;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::RwLock;
use tonic::Status;

#[derive(Clone)]
pub struct Flight {
    svc: FlightServiceServer<SeafowlFlightHandler>,
    writer: Arc<RwLock<SeafowlDataSyncWriter>>,
    interval: Duration,
    timeout: Duration,
}

impl Flight {
    /// As `run_flight_server` does, without the socket.
    pub fn new(context: Arc<SeafowlContext>) -> Self {
        let interval = Duration::from_secs(context.config.misc.sync_conf.flush_task_interval_s);
        let timeout = Duration::from_secs(context.config.misc.sync_conf.write_lock_timeout_s);
        let writer = Arc::new(RwLock::new(SeafowlDataSyncWriter::new(context.clone())));
        let handler = SeafowlFlightHandler::new(context, writer.clone());
        let svc = FlightServiceServer::new(handler).max_decoding_message_size(super::MAX_MESSAGE_SIZE);
        Flight { svc, writer, interval, timeout }
    }
    pub fn flush_loop(&self) -> impl std::future::Future<Output = ()> {
        crate::sync::flush_task(self.interval, self.timeout, self.writer.clone())
    }
    fn client(&self) -> FlightServiceClient<FlightServiceServer<SeafowlFlightHandler>> {
        FlightServiceClient::new(self.svc.clone())
    }
    pub async fn put(&self, cmd: DataSyncCommand, batches: Vec<RecordBatch>) -> Result<DataSyncResponse, Status> {
        let descriptor = FlightDescriptor::new_cmd(cmd.as_any().encode_to_vec());
        let data = FlightDataEncoderBuilder::new()
            .with_flight_descriptor(Some(descriptor))
            .build(futures::stream::iter(batches.into_iter().map(Ok)))
            .map(|d| d.expect("encoding"));
        let mut answers = self.client().do_put(data).await?.into_inner();
        let r = answers.message().await?.ok_or_else(|| Status::internal("no answer"))?;
        DataSyncResponse::decode(r.app_metadata).map_err(|e| Status::internal(e.to_string()))
    }
    pub async fn ticket(&self, query: &str) -> Result<Ticket, Status> {
        let cmd = CommandStatementQuery { query: query.into(), transaction_id: None };
        let info = self
            .client()
            .get_flight_info(FlightDescriptor::new_cmd(cmd.as_any().encode_to_vec()))
            .await?
            .into_inner();
        info.endpoint.into_iter().next().and_then(|e| e.ticket).ok_or_else(|| Status::internal("no ticket"))
    }
    pub async fn fetch(&self, ticket: Ticket) -> Result<Vec<RecordBatch>, Status> {
        let s = self.client().do_get(ticket).await?.into_inner();
        FlightRecordBatchStream::new_from_flight_data(s.map_err(|e| e.into()))
            .try_collect()
            .await
            .map_err(|e| match e {
                arrow_flight::error::FlightError::Tonic(s) => s,
                e => Status::internal(e.to_string()),
            })
    }
}
