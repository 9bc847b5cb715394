//! Stand-in for `mev-share-sse`: a subscription is recorded like a request; its answer holds one event per line.
pub mod client {
    pub use super::EventClient;
    use serde::de::DeserializeOwned;
    use std::{
        collections::VecDeque,
        pin::Pin,
        task::{Context, Poll},
    };
    #[derive(Debug)]
    pub struct SseError(pub String);
    impl std::fmt::Display for SseError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for SseError {}
    pub struct EventStream<T>(pub(crate) VecDeque<String>, pub(crate) std::marker::PhantomData<T>);
    impl<T> Unpin for EventStream<T> {}
    impl<T: DeserializeOwned> futures_core::Stream for EventStream<T> {
        type Item = Result<T, SseError>;
        fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            Poll::Ready(self.0.pop_front().map(|l| serde_json::from_str(&l).map_err(|e| SseError(e.to_string()))))
        }
    }
}
use client::EventStream;
#[derive(Clone, Debug, Default)]
pub struct EventClient(reqwest::Client);
impl EventClient {
    pub fn new(c: reqwest::Client) -> Self {
        Self(c)
    }
    pub async fn subscribe<T: serde::de::DeserializeOwned>(&self, endpoint: &str) -> Result<EventStream<T>, reqwest::Error> {
        let text = self.0.get(endpoint).send().await?.text().await?;
        Ok(EventStream(text.lines().map(|s| s.to_string()).collect(), std::marker::PhantomData))
    }
}
