//! Stand-in for the part of `lsp-server` that is used: messages go over channels.
use crossbeam::channel::{unbounded, Receiver, Sender};
use serde_json::Value;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RequestId(pub i32);
#[derive(Clone, Debug)]
pub struct Request { pub id: RequestId, pub method: String, pub params: Value }
#[derive(Clone, Debug)]
pub struct Notification { pub method: String, pub params: Value }
#[derive(Clone, Debug)]
pub struct ResponseError { pub code: i32, pub message: String, pub data: Option<Value> }
#[derive(Clone, Debug)]
pub struct Response { pub id: RequestId, pub result: Option<Value>, pub error: Option<ResponseError> }
#[derive(Clone, Debug)]
pub enum Message { Request(Request), Response(Response), Notification(Notification) }
impl From<Request> for Message { fn from(x: Request) -> Self { Message::Request(x) } }
impl From<Response> for Message { fn from(x: Response) -> Self { Message::Response(x) } }
impl From<Notification> for Message { fn from(x: Notification) -> Self { Message::Notification(x) } }
pub struct IoThreads;
pub struct Connection { pub sender: Sender<Message>, pub receiver: Receiver<Message> }
/// the client's side of the connections made
pub static CLIENTS: std::sync::Mutex<Vec<Connection>> = std::sync::Mutex::new(Vec::new());
impl Connection {
    pub fn stdio() -> (Connection, IoThreads) {
        let (a, b) = (unbounded(), unbounded());
        CLIENTS.lock().unwrap().push(Connection { sender: a.0, receiver: b.1 });
        (Connection { sender: b.0, receiver: a.1 }, IoThreads)
    }
}
