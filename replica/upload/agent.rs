// stand-in for ic_agent: records the calls, answers like the canister
use candid::Principal;
use std::cell::RefCell;
#[derive(Default)]
pub struct Agent { pub calls: RefCell<Vec<(Principal, String, Vec<u8>)>>, pub fail: RefCell<Option<usize>>, pub answer: RefCell<Vec<u8>> }
#[derive(Debug)]
pub struct AgentError;
impl std::fmt::Display for AgentError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "agent error") } }
impl std::error::Error for AgentError {}
pub struct UpdateBuilder<'a> { agent: &'a Agent, canister: Principal, method: String, arg: Vec<u8> }
impl Agent {
    pub fn update<S: Into<String>>(&self, canister: &Principal, method: S) -> UpdateBuilder<'_> { UpdateBuilder { agent: self, canister: *canister, method: method.into(), arg: vec![] } }
}
#[derive(candid::CandidType)]
struct Url { url: String }
impl<'a> UpdateBuilder<'a> {
    pub fn with_arg<A: Into<Vec<u8>>>(mut self, a: A) -> Self { self.arg = a.into(); self }
    pub async fn call_and_wait(self) -> Result<Vec<u8>, AgentError> {
        let n = self.agent.calls.borrow().len();
        self.agent.calls.borrow_mut().push((self.canister, self.method.clone(), self.arg));
        if *self.agent.fail.borrow() == Some(n) { return Err(AgentError); }
        let ok: Result<Url, ()> = Ok(Url { url: "https://example.com/dest".into() });
        Ok(candid::encode_one(ok).unwrap())
    }
}
