use mc::report::Check;
mod bytes;
mod endurance;
mod errors;
mod fairness;
mod header;
mod listen;
mod listen_mock;
mod making;
mod peer_sched;
mod net;
mod net_peers;
mod peer_seq;
mod seqpacket;
mod stream_real;
mod wrappers;

pub fn run(mut c: Check) {
	let id = c.property.clone();
	let c_ = &mut c;
	match id.as_str() {
		"P01" => {
			bytes::p01(c_);
			stream_real::p01(c_)
		},
		"P02" => {
			bytes::p02(c_);
			stream_real::p02(c_)
		},
		"P03" => {
			bytes::p03(c_);
			seqpacket::p03(c_);
			net_peers::p03(c_)
		},
		"P04" => seqpacket::p04(c_),
		"P05" => seqpacket::p05(c_),
		"P06" => header::p06(c_),
		"P07" => {
			peer_seq::p07(c_);
			peer_sched::p07(c_)
		},
		"P08" => {
			peer_seq::p08(c_);
			peer_sched::p08(c_)
		},
		"P09" => {
			peer_seq::p09(c_);
			peer_sched::p09(c_)
		},
		"P10" => {
			peer_seq::p10(c_);
			peer_sched::p10(c_)
		},
		"P11" => {
			peer_seq::p11(c_);
			peer_sched::p11(c_);
			net_peers::p11(c_)
		},
		"P12" => {
			peer_seq::p12(c_);
			peer_sched::p12(c_)
		},
		"P13" => {
			peer_seq::p13(c_);
			peer_sched::p13(c_)
		},
		"P14" => {
			peer_sched::p14(c_);
			bytes::p14(c_)
		},
		"P15" => {
			peer_seq::p15(c_);
			peer_sched::p15(c_);
			listen::p15(c_)
		},
		"P16" => peer_seq::p16(c_),
		"P20" => {
			peer_seq::p20(c_);
			peer_sched::p20(c_)
		},
		"P21" => peer_seq::p21(c_),
		"P17" => {
			listen::p17(c_);
			listen_mock::p17(c_)
		},
		"P22" => listen::p22(c_),
		"P23" => wrappers::p23(c_),
		"P24" => {
			net_peers::p24(c_);
			net_peers::p24_bodies(c_)
		},
		"P25" => net_peers::p25(c_),
		"P26" => endurance::p26(c_),
		"P28" => errors::p28(c_),
		"P27" => endurance::p27(c_),
		"P30" => making::p30(c_),
		"P31" => fairness::p31(c_),
		x => {
			eprintln!("no check for {x}");
			std::process::exit(2);
		},
	}
	c.finish()
}
