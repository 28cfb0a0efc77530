//! The node the helpers talk to: it answers from ledgers the real program produced. Between two requests any steps of
//! the explored graph may happen, and any one response may be spoiled; which, is decided by the enumerator.
use crate::graph::*;
use async_trait::async_trait;
use base64::{engine::general_purpose::STANDARD as B64, Engine as _};
use serde_json::{json, Value};
use solana_client::client_error::{ClientErrorKind, Result as Rpc};
use solana_client::rpc_request::{RpcError, RpcRequest, RpcResponseErrorData};
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Transport,
    Refused,
    NullResponse,
    EmptyObject,
    NullValue,
    /// The j-th account of the answer is cut to this many bytes.
    Cut(usize, usize),
    /// One byte of the j-th account is not what anything valid has there.
    Byte(usize, usize, u8),
    NotBase64(usize),
    /// The j-th account of the answer is missing.
    Gone(usize),
    /// Fewer accounts than were asked for.
    Short(usize),
}

/// One execution: the choices made, what was asked, and where the ledger went.
#[derive(Default)]
pub struct Script {
    pub graph: usize,
    pub at: usize,
    pub path: Vec<usize>,
    pub labels: Vec<String>,
    pub choices: Vec<(usize, usize)>,
    pub next: usize,
    pub budget: usize,
    pub requests: usize,
    pub sizes: Vec<usize>,
    pub asked: Vec<Vec<String>>,
    pub fault: Option<(usize, Fault)>,
    pub unmodelled: Option<String>,
}
impl Script {
    pub fn begin(&mut self, graph: usize, at: usize, budget: usize, fault: Option<(usize, Fault)>) {
        self.graph = graph;
        self.at = at;
        self.path = vec![at];
        self.labels.clear();
        self.next = 0;
        self.budget = budget;
        self.requests = 0;
        self.sizes.clear();
        self.asked.clear();
        self.fault = fault;
    }
    /// Moves to the next unexplored combination of choices; false when there is none.
    pub fn advance(&mut self) -> bool {
        self.choices.truncate(self.next);
        while let Some((c, n)) = self.choices.pop() {
            if c + 1 < n {
                self.choices.push((c + 1, n));
                return true;
            }
        }
        false
    }
    fn choose(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        if self.next == self.choices.len() {
            self.choices.push((0, n));
        }
        let c = self.choices[self.next].0;
        self.next += 1;
        c
    }
    fn environment(&mut self, world: &Graphs) {
        while self.budget > 0 {
            let g = &world.graphs[self.graph];
            let out = &g.out[self.at];
            let c = self.choose(out.len() + 1);
            if c == 0 {
                return;
            }
            let (label, to) = out[c - 1];
            self.budget -= 1;
            self.at = to;
            self.path.push(to);
            self.labels.push(format!("before request {}: {}", self.requests + 1, g.labels[label]));
        }
    }
}

pub struct Node {
    pub world: Arc<Graphs>,
    pub script: Arc<Mutex<Script>>,
}

fn error(code: i64, message: &str) -> ClientErrorKind {
    ClientErrorKind::RpcError(RpcError::RpcResponseError { code, message: message.into(), data: RpcResponseErrorData::Empty })
}

#[async_trait]
impl RpcSender for Node {
    async fn send(&self, request: RpcRequest, params: Value) -> Rpc<Value> {
        let mut s = self.script.lock().unwrap();
        if s.requests > 0 {
            s.environment(&self.world);
        }
        let r = s.requests;
        s.requests += 1;
        let fault = match &s.fault {
            Some((i, f)) if *i == r => Some(f.clone()),
            _ => None,
        };
        // Who asks for what is not confirmed yet may be shown what never will be.
        let mut seen = s.at;
        if matches!(params[1]["commitment"].as_str(), Some("processed" | "recent" | "single")) {
            let g = &self.world.graphs[s.graph];
            let n = g.out[s.at].len();
            let fork = s.choose(n + 1);
            if fork > 0 {
                let (label, to) = g.out[s.at][fork - 1];
                seen = to;
                s.labels.push(format!("answer {}, on a fork: {}", r + 1, g.labels[label]));
            }
        }
        let ledger = &self.world.graphs[s.graph].ledgers[seen];
        let asked: Vec<String> = match &params[0] {
            Value::String(a) => vec![a.clone()],
            Value::Array(v) => v.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(),
            _ => vec![],
        };
        s.sizes.push(asked.len());
        s.asked.push(asked.clone());
        match &fault {
            Some(Fault::Transport) => return Err(ClientErrorKind::Io(std::io::Error::from(std::io::ErrorKind::ConnectionReset)).into()),
            Some(Fault::Refused) => return Err(error(-32005, "Node is behind").into()),
            Some(Fault::NullResponse) => return Ok(Value::Null),
            Some(Fault::EmptyObject) => return Ok(json!({})),
            Some(Fault::NullValue) => return Ok(json!({"context": {"slot": 9}, "value": null})),
            _ => {}
        }
        let account = |j: usize, a: &str| -> Value {
            let Some(id) = ledger.get(a) else { return Value::Null };
            let acc = &self.world.accounts[*id];
            let mut data = acc.data.clone();
            match &fault {
                Some(Fault::Gone(k)) if *k == j => return Value::Null,
                Some(Fault::Cut(k, n)) if *k == j => data.truncate(*n),
                Some(Fault::Byte(k, at, b)) if *k == j && *at < data.len() => data[*at] = *b,
                _ => {}
            }
            if let Some(sl) = params[1].get("dataSlice").filter(|s| s.is_object()) {
                let from = (sl["offset"].as_u64().unwrap_or(0) as usize).min(data.len());
                let to = (from + sl["length"].as_u64().unwrap_or(0) as usize).min(data.len());
                data = data[from..to].to_vec();
            }
            let mut text = B64.encode(&data);
            if matches!(&fault, Some(Fault::NotBase64(k)) if *k == j) {
                text = format!("*{text}");
            }
            json!({"lamports": acc.lamports, "owner": acc.owner, "executable": false, "rentEpoch": u64::MAX, "space": acc.data.len(), "data": [text, "base64"]})
        };
        let encoding = params[1].get("encoding").and_then(Value::as_str).unwrap_or("base64");
        if !encoding.starts_with("base64") {
            s.unmodelled = Some(format!("encoding {encoding}"));
        }
        let value = match request {
            RpcRequest::GetAccountInfo => account(0, asked.first().map(String::as_str).unwrap_or("")),
            RpcRequest::GetMultipleAccounts => {
                if asked.len() > 100 {
                    return Err(error(-32602, "Too many inputs provided; max 100").into());
                }
                let mut v: Vec<Value> = asked.iter().enumerate().map(|(j, a)| account(j, a)).collect();
                if let Some(Fault::Short(n)) = fault {
                    v.truncate(n);
                }
                Value::Array(v)
            }
            other => {
                s.unmodelled = Some(format!("{other:?}"));
                return Err(error(-32601, "Method not found").into());
            }
        };
        Ok(json!({"context": {"slot": 9, "apiVersion": "2.3.0"}, "value": value}))
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "model://".into()
    }
}
