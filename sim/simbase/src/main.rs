mod archive_log;
mod base;
mod chain;
mod records;
mod retry;
mod conc;
mod config;
mod indexes;
mod kv;
mod smoke;
mod snap;
mod streams;
fn main() {
    base::note_statics();
    std::process::exit(simcore::main(&[smoke::THREADS, smoke::TOKIO, smoke::TOKIO_MT, smoke::REDB, archive_log::CHECK, indexes::CHECK, kv::REDB, kv::LAYERED, conc::NOTIFY, conc::READS, conc::CHANNELS, conc::TASKS, snap::CHECK, streams::CHECK, config::CHECK, chain::CHECK, records::CHECK, retry::CHECK]));
}
