//! Witnesses for C29: every function below compiles only if the types it names have the auto traits it asks for,
//! for every protocol, party identifier and parameter set allowed by its bounds.
#![allow(dead_code, clippy::all)]

use std::sync::Arc;

use manul::{
    combinators::chain::{ChainedMarker, ChainedProtocol},
    protocol::{PartyId, Protocol},
    session::{
        tokio::{par_run_session, run_session, MessageIn, MessageOut},
        Evidence, LocalError, Message, PreprocessOutcome, RemoteError, RoundAccumulator, RoundOutcome, Session,
        SessionId, SessionOutcome, SessionParameters, SessionReport, VerifiedMessage,
    },
};
use rand_core::CryptoRngCore;
use tokio::sync::mpsc;
use tokio_util::sync::CancellationToken;

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn send_val<T: Send>(_x: T) {}

// sessions
fn session_send<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters, SP::Signer: Send { send::<Session<P, SP>>() }
fn session_sync<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters, SP::Signer: Sync { sync::<Session<P, SP>>() }
fn session_ref_send<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters, SP::Signer: Sync { send::<&Session<P, SP>>() }
fn session_arc_send<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters, SP::Signer: Send + Sync { send::<Arc<Session<P, SP>>>() }
fn session_id() { send::<SessionId>(); sync::<SessionId>() }

// messages
fn message_send<Id: PartyId>() { send::<Message<Id>>() }
fn message_sync<Id: PartyId>() { sync::<Message<Id>>() }
fn verified_message_send<Id: PartyId>() { send::<VerifiedMessage<Id>>() }
fn verified_message_sync<Id: PartyId>() { sync::<VerifiedMessage<Id>>() }
fn preprocess_outcome_send<Id: PartyId>() { send::<PreprocessOutcome<Id>>() }
fn preprocess_outcome_sync<Id: PartyId>() { sync::<PreprocessOutcome<Id>>() }
fn message_in_send<SP: SessionParameters>() { send::<MessageIn<SP>>() }
fn message_out_send<SP: SessionParameters>() { send::<MessageOut<SP>>() }

// what passes through the accumulators
fn accumulator_send<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters { send::<RoundAccumulator<P, SP>>() }
fn accumulator_sync<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters { sync::<RoundAccumulator<P, SP>>() }
fn processed_message_send<P, SP>(s: &Session<P, SP>, m: VerifiedMessage<SP::Verifier>) where P: Protocol<SP::Verifier>, SP: SessionParameters {
    send_val(s.process_message(m))
}
fn made_message_send<P, SP>(s: &Session<P, SP>, rng: &mut impl CryptoRngCore, d: &SP::Verifier) where P: Protocol<SP::Verifier>, SP: SessionParameters {
    send_val(s.make_message(rng, d))
}
fn preprocessed_send<P, SP>(s: &Session<P, SP>, a: &mut RoundAccumulator<P, SP>, from: &SP::Verifier, m: Message<SP::Verifier>) where P: Protocol<SP::Verifier>, SP: SessionParameters {
    send_val(s.preprocess_message(a, from, m))
}

// results
fn evidence_send<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters { send::<Evidence<P, SP>>() }
fn evidence_sync<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters { sync::<Evidence<P, SP>>() }
fn outcome_send<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters, SP::Signer: Send, P::Result: Send { send::<RoundOutcome<P, SP>>() }
fn report_send<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters, P::Result: Send { send::<SessionReport<P, SP>>() }
fn report_sync<P, SP>() where P: Protocol<SP::Verifier>, SP: SessionParameters, P::Result: Sync { sync::<SessionReport<P, SP>>() }
fn session_outcome_send<Id: PartyId, P: Protocol<Id>>() where P::Result: Send { send::<SessionOutcome<Id, P>>() }
fn errors() { send::<LocalError>(); sync::<LocalError>(); send::<RemoteError>(); sync::<RemoteError>() }

// chained protocols are protocols like any other
fn chained_session<Id, C, SP>() where Id: PartyId, SP: SessionParameters<Verifier = Id>, SP::Signer: Send + Sync, C: ChainedProtocol<Id> + ChainedMarker {
    send::<Session<C, SP>>();
    sync::<Session<C, SP>>();
    send::<Evidence<C, SP>>()
}

// the runners can be spawned
fn run_send<P, SP, R>(rng: &mut R, tx: &mpsc::Sender<MessageOut<SP>>, rx: &mut mpsc::Receiver<MessageIn<SP>>, c: CancellationToken, s: Session<P, SP>)
where P: Protocol<SP::Verifier>, SP: SessionParameters, SP::Signer: Send + Sync, P::Result: Send, R: CryptoRngCore + Send {
    send_val(run_session::<P, SP>(rng, tx, rx, c, s))
}
fn par_run_send<P, SP, R>(rng: &mut R, tx: &mpsc::Sender<MessageOut<SP>>, rx: &mut mpsc::Receiver<MessageIn<SP>>, c: CancellationToken, s: Session<P, SP>)
where P: Protocol<SP::Verifier>, SP: SessionParameters, SP::Signer: Send + Sync, P::Result: Send, R: CryptoRngCore + Send {
    send_val(par_run_session::<P, SP>(rng, tx, rx, c, s))
}
