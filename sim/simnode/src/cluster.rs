//! A cluster of real nodes: keys, genesis, registry, disks, processes.
use crate::base::*;
use crate::fabric::{self, fab, SEC};
use rand::{rngs::StdRng, SeedableRng as _};
use simcore::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Arc;
use tn_config::{Config, ConfigFmt, ConfigTrait as _, KeyConfig, TelcoinDirs as _};
use tn_node::engine::TnBuilder;
use tn_reth::{RethConfig, RethEnv, SimChain, WorkerTxPool};
use tn_types::{Address, Authority, BlsKeypair, BlsPublicKey, BootstrapServer, Committee, Epoch, Genesis};

pub struct Setup {
    pub seed: u64,
    /// validators that exist; the genesis committee is the first `committee` of them
    pub validators: usize,
    pub committee: usize,
    pub observers: usize,
    pub epoch_secs: u32,
    pub rotate: bool,
    pub params: tn_config::Parameters,
    /// this validator runs a second time, on a disk of its own
    pub twin: Option<usize>,
}
pub struct Node {
    pub key: KeyConfig,
    pub bls: BlsPublicKey,
    pub address: Address,
    pub observer: bool,
    pub dir: PathBuf,
    pub group: Option<u32>,
    pub starts: u64,
    /// when it was first started
    pub first: u64,
    pub skew: i64,
}
#[derive(Default)]
pub struct Live {
    pub pools: Vec<Option<WorkerTxPool>>,
    /// how each incarnation of a node ended by itself
    pub ends: Vec<(usize, u64, u64, String)>,
}
pub struct Cluster {
    pub nodes: Vec<Node>,
    pub chain: Arc<SimChain>,
    pub live: Shared<Live>,
    pub setup: Setup,
    pub genesis_committee: Committee,
}
pub const PRIMARY: u16 = 4000;
pub const WORKER: u16 = 5000;
pub fn vol(i: usize) -> String {
    format!("n{i}")
}
impl Cluster {
    pub fn new(setup: Setup) -> Self {
        let n = setup.validators + setup.observers + setup.twin.is_some() as usize;
        fabric::install(n, setup.seed);
        // the helper threads that are one per process, whatever node needs them first
        drop(futures_timer::Delay::new(std::time::Duration::from_millis(1)));
        let mut rng = StdRng::seed_from_u64(setup.seed);
        let mut keys: Vec<_> = (0..setup.validators + setup.observers)
            .map(|_| {
                let k = BlsKeypair::generate(&mut rng);
                (*k.public(), KeyConfig::new_with_testing_key(k), Address::random_with(&mut rng))
            })
            .collect();
        keys.sort_by(|a, b| a.0.cmp(&b.0));
        if let Some(t) = setup.twin {
            keys.push(keys[t].clone());
        }
        let nodes: Vec<Node> = keys
            .into_iter()
            .enumerate()
            .map(|(i, (bls, key, address))| Node {
                key,
                bls,
                address,
                observer: i >= setup.validators && i < setup.validators + setup.observers,
                dir: PathBuf::from(format!("/sim/{}", vol(i))),
                group: None,
                starts: 0,
                first: 0,
                skew: 0,
            })
            .collect();
        let mut genesis = Genesis::default();
        tn_types::set_genesis_defaults(&mut genesis);
        genesis.config.chain_id = 2017;
        let (nv, nc, rotate) = (setup.validators, setup.committee, setup.rotate);
        let committee = move |e: Epoch| -> Vec<usize> {
            let shift = if rotate { e as usize } else { 0 };
            let mut v: Vec<usize> = (0..nc).map(|k| (k + shift) % nv).collect();
            v.sort();
            v
        };
        let authorities: BTreeMap<_, _> =
            committee(0).into_iter().map(|i| (nodes[i].bls, Authority::new_for_test(nodes[i].bls, nodes[i].address))).collect();
        let boot = committee(0)
            .into_iter()
            .map(|i| {
                let k = &nodes[i].key;
                let p = (fabric::addr(i, PRIMARY), k.primary_network_public_key());
                let w = (fabric::addr(i, WORKER), k.worker_network_public_key());
                (nodes[i].bls, BootstrapServer::new(p.into(), w.into()))
            })
            .collect();
        let genesis_committee = Committee::new_for_test(authorities, 0, boot);
        let chain = Arc::new(SimChain {
            genesis,
            validators: nodes[..nv].iter().map(|x| (x.address, x.bls.to_bytes().to_vec())).collect(),
            epoch_duration: setup.epoch_secs,
            committee: Box::new(committee),
            base_fee: 7,
        });
        let live = Shared::new(Live { pools: (0..n).map(|_| None).collect(), ends: vec![] });
        let l = live.clone();
        tn_reth::set_pool_hook(Arc::new(move |path, pool| {
            let v = path.to_string_lossy();
            let i: usize = v.split('/').nth(2).unwrap()[1..].parse().unwrap();
            let old = l.with(|l| l.pools[i].replace(pool));
            std::mem::forget(old);
        }));
        let c = Self { nodes, chain, live, setup, genesis_committee };
        for i in 0..n {
            disk().mkvol(&vol(i));
            std::fs::create_dir_all(c.nodes[i].dir.genesis_path()).unwrap();
            Config::write_to_path(c.nodes[i].dir.committee_path(), &c.genesis_committee, ConfigFmt::YAML).unwrap();
            disk().sync_all(&vol(i));
        }
        c
    }
    fn config(&self, i: usize) -> Config {
        let n = &self.nodes[i];
        let mut c = Config::default_for_test_with_genesis(self.chain.genesis.clone());
        c.parameters = self.setup.params.clone();
        c.observer = n.observer;
        c.node_info.bls_public_key = n.bls;
        c.node_info.execution_address = n.address;
        c.node_info.p2p_info.primary.network_address = fabric::addr(i, PRIMARY);
        c.node_info.p2p_info.primary.network_key = n.key.primary_network_public_key();
        c.node_info.p2p_info.worker.network_address = fabric::addr(i, WORKER);
        c.node_info.p2p_info.worker.network_key = n.key.worker_network_public_key();
        c
    }
    pub fn start(&mut self, i: usize) {
        let tn_config = self.config(i);
        let n = &mut self.nodes[i];
        n.starts += 1;
        if n.starts == 1 {
            n.first = simrt::now_ns();
        }
        let (dir, key, start, live, chain) = (n.dir.clone(), n.key.clone(), n.starts, self.live.clone(), self.chain.clone());
        simrt::note(|| format!("START n{i} #{start}"));
        let g = simrt::spawn_group(&format!("n{i}"), move || {
            let g = simrt::my_group();
            fab(|f| f.up(i, g));
            std::thread::Builder::new().name("nic".into()).spawn(move || fabric::nic(i)).unwrap();
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let end = rt.block_on(async move {
                let node_config = RethConfig(chain);
                let reth_db = match RethEnv::new_database(&node_config, dir.reth_db_path()) {
                    Ok(d) => d,
                    Err(e) => return format!("cannot open the execution database: {e}"),
                };
                let b = TnBuilder {
                    node_config,
                    tn_config,
                    metrics: None,
                    healthcheck: None,
                    enable_state_export: false,
                    reth_db,
                    exex_fns: vec![],
                };
                match tn_node::launch_node(b, dir, key, "sim").await {
                    Ok(Ok(())) => "ok".into(),
                    Ok(Err(e)) => format!("{e:#}"),
                    Err(e) => format!("join: {e}"),
                }
            });
            simrt::note(|| format!("END n{i} #{start}: {end}"));
            live.with(|l| l.ends.push((i, start, simrt::now_ns(), end)));
        });
        let skew = self.nodes[i].skew;
        simrt::critical(|| simrt::sim().groups[g as usize].wall_skew = skew);
        self.nodes[i].group = Some(g);
    }
    pub fn running(&self, i: usize) -> bool {
        self.nodes[i].group.is_some_and(simrt::group_alive)
    }
    /// The process stops where it stands; `abrupt_ns` is when its peers learn of it.
    pub fn kill(&mut self, i: usize, abrupt_ns: u64) {
        if let Some(g) = self.nodes[i].group.take() {
            simrt::kill_group(g);
            fab(|f| f.down(i, abrupt_ns));
            let old = self.live.with(|l| l.pools[i].take());
            std::mem::forget(old);
        }
    }
    /// The blocks on a node's execution disk.
    pub fn blocks(&self, i: usize) -> Vec<tn_reth::Stored> {
        let p = self.nodes[i].dir.reth_db_path().join("chain.log");
        disk().peek(&p.to_string_lossy()).map(|b| tn_reth::Stored::read_all(&b).0).unwrap_or_default()
    }
}
pub fn secs(n: u64) {
    simrt::sleep_ns(n * SEC);
}
