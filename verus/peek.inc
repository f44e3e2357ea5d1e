//% source src/rust/src/core/group_call.rs
// ---- what a peek does ---------------------------------------------------------------------------
impl VxDefault for HeartbeatState {
    open spec fn vx_is_default(r: Self) -> bool {
        r.audio_muted is None && r.video_muted is None && r.presenting is None && r.sharing_screen is None
            && r.muted_by_demux_id is None
    }

    fn vx_default() -> (r: Self) {
        HeartbeatState { audio_muted: None, video_muted: None, presenting: None, sharing_screen: None, muted_by_demux_id: None }
    }
}

#[verifier::external_body]
fn vx_take_devices(d: &mut RemoteDevices) -> (r: RemoteDevices)
    ensures
        r == *old(d),
        final(d).0@ == Seq::<RemoteDeviceState>::empty(),
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_take_set(d: &mut VSet<UserId>) -> (r: VSet<UserId>)
    ensures
        r == *old(d),
        final(d)@ == Set::<Seq<u8>>::empty(),
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_take_vec<T>(d: &mut Vec<T>) -> (r: Vec<T>)
    ensures
        r == *old(d),
        final(d)@ == Seq::<T>::empty(),
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_other_text(a: Option<&String>, b: Option<&String>) -> (r: bool)
    ensures
        r == match (a, b) {
            (Some(x), Some(y)) => x@ != y@,
            (None, None) => false,
            _ => true,
        },
{
    a != b
}

// a number made from the users waiting for approval
pub uninterp spec fn waiting(p: PeekInfo) -> u64;

#[verifier::external_body]
fn vx_waiting(p: &PeekInfo) -> (r: u64)
    ensures
        r == waiting(*p),
{
    unimplemented!()
}

// v.extend(it.map(Some))
#[verifier::external_body]
fn vx_extend_some(v: &mut Vec<Option<DemuxId>>, it: VIter<DemuxId>)
    ensures
        final(v)@ == old(v)@ + it@.map_values(|x: DemuxId| Some(x)),
{
    unimplemented!()
}

// collect() into a map: the last entry with a key stays
pub open spec fn map_of<V>(s: Seq<(DemuxId, V)>) -> Map<DemuxId, V>
    decreases s.len(),
{
    if s.len() == 0 {
        Map::empty()
    } else {
        map_of(s.drop_last()).insert(s.last().0, s.last().1)
    }
}

impl<V> VxFrom<(DemuxId, V)> for VMap<DemuxId, V> {
    open spec fn vx_is(s: Seq<(DemuxId, V)>, r: Self) -> bool {
        r@ == map_of(s)
    }
}

impl VxFrom<RemoteDeviceState> for RemoteDevices {
    open spec fn vx_is(s: Seq<RemoteDeviceState>, r: Self) -> bool {
        r.0@ == s
    }
}

// the devices as they were, by id
pub open spec fn by_id(devs: Seq<RemoteDeviceState>) -> Map<DemuxId, RemoteDeviceState> {
    map_of(devs.map_values(|d: RemoteDeviceState| (d.demux_id, d)))
}

broadcast proof fn by_id_collected(devs: Seq<RemoteDeviceState>, s: Seq<(DemuxId, RemoteDeviceState)>)
    requires
        s.len() == devs.len(),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] == (devs[i].demux_id, devs[i]),
    ensures
        #![trigger by_id(devs), map_of(s)]
        by_id(devs) == map_of(s),
{
    assert(devs.map_values(|d: RemoteDeviceState| (d.demux_id, d)) =~= s);
}

pub open spec fn new_device(r: RemoteDeviceState, id: DemuxId, user: Seq<u8>) -> bool {
    &&& r.demux_id == id
    &&& r.user_id@ == user
    &&& !r.media_keys_received
    &&& HeartbeatState::vx_is_default(r.heartbeat_state)
    &&& r.heartbeat_rtp_timestamp is None
    &&& r.speaker_time is None
    &&& !r.leaving_received
    &&& r.forwarding_video is None
    &&& r.server_allocated_height == 0
    &&& r.client_decoded_height is None
    &&& !r.is_higher_resolution_pending
    &&& r.remote_mute_requesters@ == Set::<DemuxId>::empty()
}

// the device listed with that id and user: the one known before, state and all, else a new one
pub open spec fn device_from(known: Map<DemuxId, RemoteDeviceState>, id: DemuxId, user: Seq<u8>, r: RemoteDeviceState) -> bool {
    if known.dom().contains(id) && known[id].user_id@ == user {
        r == known[id]
    } else {
        new_device(r, id, user)
    }
}

impl RemoteDeviceState {
    //% fn RemoteDeviceState::new
        ensures
            new_device(r, demux_id, user_id@),
            r.added_time == added_time,
    //% sub? HashSet::new ==> VSet::new
    //% sub? Default::default\(\) ==> VxDefault::vx_default()
    //% end
}

pub open spec fn listed(p: Seq<PeekDeviceInfo>, me: DemuxId) -> Seq<PeekDeviceInfo> {
    p.filter(|d: PeekDeviceInfo| d.demux_id != me && d.user_id is Some)
}

pub open spec fn users_listed(p: Seq<PeekDeviceInfo>) -> Set<Seq<u8>> {
    p.filter(|d: PeekDeviceInfo| d.user_id is Some).map_values(|d: PeekDeviceInfo| d.user_id.unwrap()@).to_set()
}

pub open spec fn is_listed(p: Seq<PeekDeviceInfo>, id: DemuxId) -> bool {
    exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).demux_id == id
}

// nobody earlier in the list has the id of the i-th
pub open spec fn first_of_its_id(l: Seq<PeekDeviceInfo>, i: int) -> bool {
    forall|j: int| 0 <= j < i ==> (#[trigger] l[j]).demux_id != l[i].demux_id
}

// the new device list: every listed device with a known user except this one, in order, the ones known
// before with their state
pub open spec fn refreshed(
    was: Seq<RemoteDeviceState>,
    p: Seq<PeekDeviceInfo>,
    me: DemuxId,
    now: Seq<RemoteDeviceState>,
) -> bool {
    let l = listed(p, me);
    &&& now.len() == l.len()
    &&& forall|i: int|
        #![trigger now[i]]
        #![trigger l[i]]
        0 <= i < l.len() ==> device_from(
            if first_of_its_id(l, i) {
                by_id(was)
            } else {
                Map::empty()
            },
            l[i].demux_id,
            l[i].user_id.unwrap()@,
            now[i],
        )
}

//% fn Client::set_peek_result_inner#6 as known_or_new
    ensures
        final(old_remote_devices_by_demux_id)@ == old(old_remote_devices_by_demux_id)@.remove(device.demux_id),
        device_from(old(old_remote_devices_by_demux_id)@, device.demux_id, user_id@, r),
//% sig fn known_or_new(user_id: &UserId, device: &PeekDeviceInfo, added_time: SystemTime, old_remote_devices_by_demux_id: &mut VMap<DemuxId, RemoteDeviceState>) -> (r: RemoteDeviceState)
//% sub? &(\w+)\.user_id == user_id ==> vx_same(&\1.user_id, user_id)
//% end

// Option::map of the closure above
fn vx_known(
    user_id: Option<&UserId>,
    device: &PeekDeviceInfo,
    added_time: SystemTime,
    old_remote_devices_by_demux_id: &mut VMap<DemuxId, RemoteDeviceState>,
) -> (r: Option<RemoteDeviceState>)
    ensures
        r is Some == user_id is Some,
        user_id is None ==> final(old_remote_devices_by_demux_id)@ == old(old_remote_devices_by_demux_id)@,
        user_id matches Some(u) ==> final(old_remote_devices_by_demux_id)@ == old(
            old_remote_devices_by_demux_id,
        )@.remove(device.demux_id) && device_from(
            old(old_remote_devices_by_demux_id)@,
            device.demux_id,
            u@,
            r.unwrap(),
        ),
{
    match user_id {
        None => None,
        Some(user_id) => Some(known_or_new(user_id, device, added_time, old_remote_devices_by_demux_id)),
    }
}

//% fn Client::set_peek_result_inner#5 as one_device
    ensures
        *final(local_device_is_participant) == (*old(local_device_is_participant) || device.demux_id == local_demux_id),
        r is Some == (device.demux_id != local_demux_id && device.user_id is Some),
        r is None ==> final(old_remote_devices_by_demux_id)@ == old(old_remote_devices_by_demux_id)@,
        r matches Some(d) ==> final(old_remote_devices_by_demux_id)@ == old(
            old_remote_devices_by_demux_id,
        )@.remove(device.demux_id) && device_from(
            old(old_remote_devices_by_demux_id)@,
            device.demux_id,
            device.user_id.unwrap()@,
            d,
        ),
//% sig fn one_device(device: &PeekDeviceInfo, local_demux_id: DemuxId, added_time: SystemTime, local_device_is_participant: &mut bool, old_remote_devices_by_demux_id: &mut VMap<DemuxId, RemoteDeviceState>) -> (r: Option<RemoteDeviceState>)
//% sub? \blocal_device_is_participant = ==> *local_device_is_participant =
//% sub? device\.user_id\.as_ref\(\)\.map\( ==> vx_known(device.user_id.as_ref(), 
//% closure 0
    $REPLACE device, added_time, old_remote_devices_by_demux_id
//% end

proof fn listed_step(p: Seq<PeekDeviceInfo>, me: DemuxId, n: int)
    requires
        0 <= n < p.len(),
    ensures
        listed(p.take(n + 1), me) == if p[n].demux_id != me && p[n].user_id is Some {
            listed(p.take(n), me).push(p[n])
        } else {
            listed(p.take(n), me)
        },
{
    reveal(Seq::filter);
    assert(p.take(n + 1).drop_last() =~= p.take(n));
    assert(p.take(n + 1).last() == p[n]);
}

// something collected already
pub struct VxDone<T> {
    pub t: T,
}

impl<T> VxDone<T> {
    fn collect(self) -> (r: T)
        ensures
            r == self.t,
    {
        self.t
    }
}

// filter_map of the closure above, collected
fn vx_refresh(
    devices: &Vec<PeekDeviceInfo>,
    local_demux_id: DemuxId,
    added_time: SystemTime,
    local_device_is_participant: &mut bool,
    old_remote_devices_by_demux_id: &mut VMap<DemuxId, RemoteDeviceState>,
    Ghost(was): Ghost<Seq<RemoteDeviceState>>,
) -> (r: VxDone<RemoteDevices>)
    requires
        old(old_remote_devices_by_demux_id)@ == by_id(was),
    ensures
        refreshed(was, devices@, local_demux_id, r.t.0@),
        *final(local_device_is_participant) == (*old(local_device_is_participant) || is_listed(devices@, local_demux_id)),
{
    let mut out: Vec<RemoteDeviceState> = Vec::new();
    let mut i: usize = 0;
    proof {
        reveal(Seq::filter);
        assert(devices@.take(0) =~= Seq::<PeekDeviceInfo>::empty());
        assert(listed(devices@.take(0), local_demux_id) =~= Seq::<PeekDeviceInfo>::empty());
    }
    while i < devices.len()
        invariant
            i <= devices@.len(),
            refreshed(was, devices@.take(i as int), local_demux_id, out@),
            forall|id: DemuxId| #[trigger]
                old_remote_devices_by_demux_id@.dom().contains(id) <==> by_id(was).dom().contains(id) && forall|j: int|
                    0 <= j < out@.len() ==> (#[trigger] listed(devices@.take(i as int), local_demux_id)[j]).demux_id != id,
            forall|id: DemuxId| #[trigger]
                old_remote_devices_by_demux_id@.dom().contains(id) ==> old_remote_devices_by_demux_id@[id] == by_id(was)[id],
            *local_device_is_participant == (*old(local_device_is_participant) || is_listed(
                devices@.take(i as int),
                local_demux_id,
            )),
        decreases devices@.len() - i,
    {
        let device = &devices[i];
        let ghost l0 = listed(devices@.take(i as int), local_demux_id);
        let ghost l1 = listed(devices@.take(i + 1), local_demux_id);
        let ghost map0 = old_remote_devices_by_demux_id@;
        let ghost out0 = out@;
        proof {
            listed_step(devices@, local_demux_id, i as int);
            assert(devices@.take(i + 1)[i as int] == devices@[i as int]);
            assert(forall|j: int| 0 <= j < i ==> devices@.take(i + 1)[j] == #[trigger] devices@.take(i as int)[j]);
        }
        let d = one_device(device, local_demux_id, added_time, local_device_is_participant, old_remote_devices_by_demux_id);
        proof {
            if is_listed(devices@.take(i + 1), local_demux_id) && device.demux_id != local_demux_id {
                let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] devices@.take(i + 1)[j]).demux_id == local_demux_id;
                assert(devices@.take(i as int)[j].demux_id == local_demux_id);
            }
            if is_listed(devices@.take(i as int), local_demux_id) {
                let j = choose|j: int| 0 <= j < i && (#[trigger] devices@.take(i as int)[j]).demux_id == local_demux_id;
                assert(devices@.take(i + 1)[j].demux_id == local_demux_id);
            }
        }
        if let Some(d) = d {
            out.push(d);
            proof {
                let n = out0.len() as int;
                assert(l1 == l0.push(devices@[i as int]));
                assert(l1[n] == devices@[i as int]);
                assert(forall|j: int| 0 <= j < n ==> l1[j] == #[trigger] l0[j]);
                assert(first_of_its_id(l1, n) == forall|j: int| 0 <= j < n ==> (#[trigger] l0[j]).demux_id != l1[n].demux_id) by {
                    assert(forall|j: int| 0 <= j < n ==> l0[j] == #[trigger] l1[j]);
                }
                assert(map0.dom().contains(l1[n].demux_id) == (by_id(was).dom().contains(l1[n].demux_id) && first_of_its_id(l1, n)));
                assert forall|k: int| 0 <= k < l1.len() implies device_from(
                    if first_of_its_id(l1, k) { by_id(was) } else { Map::empty() },
                    (#[trigger] l1[k]).demux_id, l1[k].user_id.unwrap()@, out@[k]) by {
                    if k < n {
                        assert(l1[k] == l0[k] && out@[k] == out0[k]);
                        assert(forall|j: int| 0 <= j < k ==> l1[j] == #[trigger] l0[j]);
                        assert(forall|j: int| 0 <= j < k ==> l0[j] == #[trigger] l1[j]);
                        assert(first_of_its_id(l1, k) == first_of_its_id(l0, k));
                    }
                }
                assert forall|id: DemuxId| #[trigger]
                    old_remote_devices_by_demux_id@.dom().contains(id) implies by_id(was).dom().contains(id) && forall|j: int|
                        0 <= j < out@.len() ==> (#[trigger] l1[j]).demux_id != id by {
                    assert(map0.dom().contains(id));
                    assert forall|j: int| 0 <= j < out@.len() implies (#[trigger] l1[j]).demux_id != id by {
                        if j < n {
                            assert(l1[j] == l0[j]);
                        }
                    }
                }
                assert forall|id: DemuxId| by_id(was).dom().contains(id) && (forall|j: int|
                        0 <= j < out@.len() ==> (#[trigger] l1[j]).demux_id != id) implies #[trigger]
                    old_remote_devices_by_demux_id@.dom().contains(id) by {
                    assert forall|j: int| 0 <= j < n implies (#[trigger] l0[j]).demux_id != id by {
                        assert(l1[j] == l0[j]);
                    }
                    assert(map0.dom().contains(id));
                    assert(l1[n].demux_id != id);
                }
            }
        }
        i += 1;
    }
    proof {
        assert(devices@.take(i as int) =~= devices@);
    }
    VxDone { t: RemoteDevices(out) }
}

proof fn filter_has<T>(s: Seq<T>, f: spec_fn(T) -> bool)
    ensures
        forall|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) ==> s.filter(f).contains(s[i]),
        forall|x: T| #[trigger] s.filter(f).contains(x) ==> s.contains(x) && f(x),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        filter_has(t, f);
        let a = s.filter(f);
        let b = t.filter(f);
        assert forall|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) implies a.contains(s[i]) by {
            if i < t.len() {
                assert(t[i] == s[i]);
                let k = b.index_of(s[i]);
                assert(a[k] == b[k]);
            } else {
                assert(a.last() == s[i]);
            }
        }
        assert forall|x: T| #[trigger] a.contains(x) implies s.contains(x) && f(x) by {
            let k = a.index_of(x);
            if k < b.len() {
                assert(b[k] == x);
                assert(b.contains(x));
                let i = t.index_of(x);
                assert(s[i] == x);
            } else {
                assert(s[s.len() - 1] == x);
            }
        }
    }
}

pub open spec fn among(u: Seq<UserId>, x: Seq<u8>) -> bool {
    exists|j: int| 0 <= j < u.len() && (#[trigger] u[j])@ == x
}

pub open spec fn lists_user(p: Seq<PeekDeviceInfo>, u: Seq<u8>) -> bool {
    exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).user_id is Some && p[i].user_id.unwrap()@ == u
}

broadcast proof fn listed_users_collected(p: Seq<PeekDeviceInfo>, u: Seq<UserId>)
    requires
        forall|i: int|
            #![trigger p[i]]
            0 <= i < p.len() && p[i].user_id is Some ==> among(u, p[i].user_id.unwrap()@),
        forall|j: int| #![trigger u[j]] 0 <= j < u.len() ==> lists_user(p, u[j]@),
    ensures
        #![trigger users_listed(p), view_set(u)]
        users_listed(p) == view_set(u),
{
    let f = |d: PeekDeviceInfo| d.user_id is Some;
    let g = |d: PeekDeviceInfo| d.user_id.unwrap()@;
    filter_has(p, f);
    let q = p.filter(f);
    let m = q.map_values(g);
    assert forall|x: Seq<u8>| users_listed(p).contains(x) == view_set(u).contains(x) by {
        if m.contains(x) {
            let k = m.index_of(x);
            assert(q.contains(q[k]));
            let i = p.index_of(q[k]);
            assert(p[i].user_id is Some);
            let j = choose|j: int| 0 <= j < u.len() && (#[trigger] u[j])@ == p[i].user_id.unwrap()@;
            assert(views(u)[j] == x);
        }
        if views(u).contains(x) {
            let j = views(u).index_of(x);
            assert(u[j]@ == x);
            let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).user_id is Some && p[i].user_id.unwrap()@ == u[j]@;
            assert(f(p[i]));
            let k = q.index_of(p[i]);
            assert(m[k] == x);
            assert(m.contains(x));
        }
    }
    assert(users_listed(p) =~= view_set(u));
}

// the users behind some device ids
pub open spec fn users_with(devs: Seq<RemoteDeviceState>, ids: Set<DemuxId>) -> Set<Seq<u8>> {
    users_of(devs.filter(|d: RemoteDeviceState| ids.contains(d.demux_id)))
}

pub open spec fn has_user(devs: Seq<RemoteDeviceState>, ids: Set<DemuxId>, u: Seq<u8>) -> bool {
    exists|i: int| 0 <= i < devs.len() && ids.contains((#[trigger] devs[i]).demux_id) && devs[i].user_id@ == u
}

broadcast proof fn users_with_collected(devs: Seq<RemoteDeviceState>, ids: Set<DemuxId>, u: Seq<UserId>)
    requires
        forall|i: int|
            #![trigger devs[i]]
            0 <= i < devs.len() && ids.contains(devs[i].demux_id) ==> among(u, devs[i].user_id@),
        forall|j: int| #![trigger u[j]] 0 <= j < u.len() ==> has_user(devs, ids, u[j]@),
    ensures
        #![trigger users_with(devs, ids), view_set(u)]
        users_with(devs, ids) == view_set(u),
{
    let f = |d: RemoteDeviceState| ids.contains(d.demux_id);
    let g = |d: RemoteDeviceState| d.user_id@;
    filter_has(devs, f);
    let q = devs.filter(f);
    let m = q.map_values(g);
    assert forall|x: Seq<u8>| users_with(devs, ids).contains(x) == view_set(u).contains(x) by {
        if m.contains(x) {
            let k = m.index_of(x);
            assert(q.contains(q[k]));
            let i = devs.index_of(q[k]);
            assert(ids.contains(devs[i].demux_id));
            let j = choose|j: int| 0 <= j < u.len() && (#[trigger] u[j])@ == devs[i].user_id@;
            assert(views(u)[j] == x);
        }
        if views(u).contains(x) {
            let j = views(u).index_of(x);
            assert(u[j]@ == x);
            let i = choose|i: int| 0 <= i < devs.len() && ids.contains((#[trigger] devs[i]).demux_id) && devs[i].user_id@ == u[j]@;
            assert(f(devs[i]));
            let k = q.index_of(devs[i]);
            assert(m[k] == x);
            assert(m.contains(x));
        }
    }
    assert(users_with(devs, ids) =~= view_set(u));
}

// ---- the slots of the incoming streams: a slot keeps its device for as long as the device is there ----
pub open spec fn slots_pruned(s: Seq<Option<DemuxId>>, there: Set<DemuxId>) -> Seq<Option<DemuxId>> {
    s.map_values(
        |x: Option<DemuxId>|
            match x {
                Some(d) => if there.contains(d) {
                    x
                } else {
                    None
                },
                None => None,
            },
    )
}

// empty slots go to the newcomers in turn; those left over get slots of their own
pub open spec fn slots_filled(s: Seq<Option<DemuxId>>, q: Seq<DemuxId>) -> Seq<Option<DemuxId>>
    decreases s.len(),
{
    if s.len() == 0 {
        q.map_values(|x: DemuxId| Some(x))
    } else {
        let t = s.subrange(1, s.len() as int);
        if s[0] is None && q.len() > 0 {
            seq![Some(q[0])] + slots_filled(t, q.subrange(1, q.len() as int))
        } else {
            seq![s[0]] + slots_filled(t, q)
        }
    }
}

pub open spec fn slots_updated(
    was: Seq<Option<DemuxId>>,
    there: Set<DemuxId>,
    added: Set<DemuxId>,
    now: Seq<Option<DemuxId>>,
) -> bool {
    let kept = slots_pruned(was, there);
    if added == Set::<DemuxId>::empty() {
        now == kept
    } else {
        exists|q: Seq<DemuxId>| #[trigger] q.to_set() == added && q.no_duplicates() && now == slots_filled(kept, q)
    }
}

proof fn slots_fill_step(kept: Seq<Option<DemuxId>>, i: int, q: Seq<DemuxId>)
    requires
        0 <= i < kept.len(),
    ensures
        slots_filled(kept.skip(i), q) == if kept[i] is None && q.len() > 0 {
            seq![Some(q[0])] + slots_filled(kept.skip(i + 1), q.subrange(1, q.len() as int))
        } else {
            seq![kept[i]] + slots_filled(kept.skip(i + 1), q)
        },
{
    assert(kept.skip(i).subrange(1, kept.skip(i).len() as int) =~= kept.skip(i + 1));
}

// no device loses its slot, none has two, every newcomer has one
proof fn slots_stay(was: Seq<Option<DemuxId>>, there: Set<DemuxId>, added: Set<DemuxId>, now: Seq<Option<DemuxId>>)
    requires
        slots_updated(was, there, added, now),
        added.subset_of(there),
        forall|i: int| 0 <= i < was.len() && (#[trigger] was[i]) is Some ==> !added.contains(was[i].unwrap()),
        forall|i: int, j: int|
            0 <= i < j < was.len() && (#[trigger] was[i]) is Some ==> was[i] != #[trigger] was[j],
    ensures
        now.len() >= was.len(),
        forall|i: int|
            #![trigger was[i]]
            0 <= i < was.len() && was[i] is Some && there.contains(was[i].unwrap()) ==> now[i] == was[i],
        forall|i: int| 0 <= i < now.len() && (#[trigger] now[i]) is Some ==> there.contains(now[i].unwrap()),
        forall|d: DemuxId| #[trigger] added.contains(d) ==> now.contains(Some(d)),
        forall|i: int, j: int|
            0 <= i < j < now.len() && (#[trigger] now[i]) is Some ==> now[i] != #[trigger] now[j],
{
    let kept = slots_pruned(was, there);
    if added != Set::<DemuxId>::empty() {
        let q = choose|q: Seq<DemuxId>| #[trigger] q.to_set() == added && q.no_duplicates() && now == slots_filled(kept, q);
        assert forall|i: int| 0 <= i < kept.len() && (#[trigger] kept[i]) is Some implies !q.contains(kept[i].unwrap()) by {
            assert(kept[i] == was[i]);
            assert(q.to_set().contains(kept[i].unwrap()) == q.contains(kept[i].unwrap()));
        }
        assert forall|i: int, j: int| 0 <= i < j < kept.len() && (#[trigger] kept[i]) is Some implies kept[i] != #[trigger] kept[j] by {
            assert(kept[i] == was[i]);
            if kept[j] is Some {
                assert(kept[j] == was[j]);
            }
        }
        filled_slots(kept, q);
        assert forall|d: DemuxId| #[trigger] added.contains(d) implies now.contains(Some(d)) by {
            assert(q.to_set().contains(d));
        }
        assert forall|i: int| 0 <= i < now.len() && (#[trigger] now[i]) is Some implies there.contains(now[i].unwrap()) by {
            if !kept.contains(now[i]) {
                assert(q.contains(now[i].unwrap()));
                assert(q.to_set().contains(now[i].unwrap()));
            } else {
                let k = kept.index_of(now[i]);
                assert(kept[k] == now[i]);
            }
        }
        assert forall|i: int|
            #![trigger was[i]]
            0 <= i < was.len() && was[i] is Some && there.contains(was[i].unwrap()) implies now[i] == was[i] by {
            assert(kept[i] == was[i]);
        }
    } else {
        assert forall|i: int, j: int| 0 <= i < j < now.len() && (#[trigger] now[i]) is Some implies now[i] != #[trigger] now[j] by {
            assert(kept[i] == was[i]);
            if kept[j] is Some {
                assert(kept[j] == was[j]);
            }
        }
    }
}

proof fn filled_slots(s: Seq<Option<DemuxId>>, q: Seq<DemuxId>)
    requires
        q.no_duplicates(),
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some ==> !q.contains(s[i].unwrap()),
        forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]) is Some ==> s[i] != #[trigger] s[j],
    ensures
        slots_filled(s, q).len() >= s.len(),
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] is Some ==> slots_filled(s, q)[i] == s[i],
        forall|d: DemuxId| #[trigger] q.contains(d) ==> slots_filled(s, q).contains(Some(d)),
        forall|i: int|
            0 <= i < slots_filled(s, q).len() && (#[trigger] slots_filled(s, q)[i]) is Some ==> s.contains(
                slots_filled(s, q)[i],
            ) || q.contains(slots_filled(s, q)[i].unwrap()),
        forall|i: int, j: int|
            0 <= i < j < slots_filled(s, q).len() && (#[trigger] slots_filled(s, q)[i]) is Some ==> slots_filled(s, q)[i]
                != #[trigger] slots_filled(s, q)[j],
    decreases s.len(),
{
    let f = slots_filled(s, q);
    if s.len() == 0 {
        assert forall|d: DemuxId| #[trigger] q.contains(d) implies f.contains(Some(d)) by {
            assert(f[q.index_of(d)] == Some(d));
        }
    } else {
        let t = s.subrange(1, s.len() as int);
        assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[i + 1]);
        let takes = s[0] is None && q.len() > 0;
        let r = if takes { q.subrange(1, q.len() as int) } else { q };
        let g = slots_filled(t, r);
        if takes {
            assert(forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == q[i + 1]);
        }
        assert(forall|d: DemuxId| #[trigger] r.contains(d) ==> q.contains(d)) by {
            assert forall|d: DemuxId| #[trigger] r.contains(d) implies q.contains(d) by {
                let k = r.index_of(d);
                if takes {
                    assert(q[k + 1] == d);
                }
            }
        }
        filled_slots(t, r);
        assert(forall|i: int| 1 <= i < f.len() ==> #[trigger] f[i] == g[i - 1]);
        assert(f.len() == g.len() + 1);
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i] is Some implies f[i] == s[i] by {
            if i > 0 {
                assert(t[i - 1] == s[i] && g[i - 1] == t[i - 1]);
            }
        }
        assert forall|d: DemuxId| #[trigger] q.contains(d) implies f.contains(Some(d)) by {
            let k = q.index_of(d);
            if takes && k == 0 {
                assert(f[0] == Some(d));
            } else {
                if takes {
                    assert(r[k - 1] == d);
                }
                assert(r.contains(d));
                let m = g.index_of(Some(d));
                assert(f[m + 1] == Some(d));
            }
        }
        assert forall|i: int| 0 <= i < f.len() && (#[trigger] f[i]) is Some implies s.contains(f[i]) || q.contains(f[i].unwrap()) by {
            if i == 0 {
                if takes {
                    assert(q[0] == f[0].unwrap());
                } else {
                    assert(s[0] == f[0]);
                }
            } else {
                assert(g[i - 1] == f[i]);
                if t.contains(f[i]) {
                    let k = t.index_of(f[i]);
                    assert(s[k + 1] == f[i]);
                }
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < f.len() && (#[trigger] f[i]) is Some implies f[i] != #[trigger] f[j] by {
            if i > 0 {
                assert(g[i - 1] == f[i] && g[j - 1] == f[j]);
            } else if f[i] == f[j] {
                assert(g[j - 1] == f[0]);
                if takes {
                    let d = q[0];
                    assert(q.contains(d));
                    assert(!r.contains(d)) by {
                        if r.contains(d) {
                            let k = r.index_of(d);
                            assert(q[k + 1] == q[0]);
                        }
                    }
                    let k = t.index_of(Some(d));
                    assert(s[k + 1] == Some(d));
                } else {
                    let d = s[0].unwrap();
                    assert(!q.contains(d));
                    let k = t.index_of(s[0]);
                    assert(s[k + 1] == s[0]);
                }
            }
        }
    }
}

// ---- a peek ---------------------------------------------------------------------------------------
impl Client {
    //% fn Client::set_join_state_and_notify_observer
        ensures
            *final(state) == (State { join_state, observer: final(state).observer, ..*old(state) }),
            final(state).observer.log@ == old(state).observer.log@.push(Act::JoinState(join_state)),
    //% end

    // sets up the audio coders of the peer connection from the assets: nothing the state here has
    #[verifier::external_body]
    fn on_client_joined(state: &mut State)
        ensures
            *final(state) == *old(state),
    {
    }

    #[verifier::external_body]
    fn end(state: &mut State, reason: CallEndReason)
        ensures
            final(state).observer.log@.len() > 0,
            final(state).observer.log@.last() is Ending,
    {
    }

    #[verifier::external_body]
    fn set_peer_connection_descriptions(
        state: &State,
        sfu_info: &SfuInfo,
        local_demux_id: DemuxId,
        srtp_keys: &SrtpKeys,
    ) -> (r: Result<(), VxError>) {
        unimplemented!()
    }
}

// the keys in force
#[verifier::external_body]
fn vx_srtp_keys(d: &DheState) -> (r: &SrtpKeys)
    requires
        d is Negotiated,
{
    unimplemented!()
}

pub open spec fn era_of(p: PeekInfo) -> Option<Seq<char>> {
    match p.era_id {
        Some(e) => Some(e@),
        None => None,
    }
}

// is there anything in this peek the app has to hear of?
pub open spec fn peek_is_news(s: State, p: PeekInfo) -> bool {
    match s.last_peek_info {
        None => true,
        Some(l) => s.joined_members@ != users_listed(p.devices@) || era_of(l) != era_of(p)
            || s.pending_users_signature != waiting(p),
    }
}

// the device this one is in the call, once its keys are agreed
pub open spec fn me_in_call(s: State) -> Option<DemuxId> {
    if s.dhe_state is Negotiated {
        my_device(s)
    } else {
        None
    }
}

pub open spec fn newcomers(before: State, p: PeekInfo, me: DemuxId, now: Seq<RemoteDeviceState>) -> Set<DemuxId> {
    ids_of(now).difference(ids_of(before.remote_devices.0@))
}

// the device list follows the peek; the app hears of it when the ids changed
#[verifier::opaque]
spec fn devices_follow(before: State, p: PeekInfo, me: DemuxId, s: State) -> bool {
    let was = before.remote_devices.0@;
    let now = s.remote_devices.0@;
    &&& refreshed(was, p.devices@, me, now)
    &&& if ids_of(was) == ids_of(now) {
        s == (State { remote_devices: s.remote_devices, ..before })
    } else {
        &&& s.observer.log@ == before.observer.log@.push(Act::DevicesChanged { why: RemoteDevicesChangedReason::DemuxIdsChanged })
        &&& if before.sfu_info is Some {
            slots_updated(
                before.remote_transceiver_demux_ids@,
                ids_of(now),
                ids_of(now).difference(ids_of(was)),
                s.remote_transceiver_demux_ids@,
            )
        } else {
            s.remote_transceiver_demux_ids@ == before.remote_transceiver_demux_ids@
        }
        &&& s == (State {
            remote_devices: s.remote_devices,
            remote_transceiver_demux_ids: s.remote_transceiver_demux_ids,
            observer: s.observer,
            call_summary: s.call_summary,
            ..before
        })
    }
}

broadcast proof fn rotated_is_sound(before: State, after: State, e: Option<Timestamp>)
    requires
        #[trigger] rotated(before, after, e),
    ensures
        after.frame_crypto_context == before.frame_crypto_context,
{
}

// once the peek lists this device, it is in
#[verifier::opaque]
spec fn let_in(before: State, p: PeekInfo, me: DemuxId, s: State) -> bool {
    if is_listed(p.devices@, me) && before.join_state is Pending {
        &&& s.observer.log@ == before.observer.log@.push(Act::JoinState(JoinState::Joined(me)))
        &&& s == (State { join_state: JoinState::Joined(me), observer: s.observer, ..before })
    } else {
        s == before
    }
}

// someone came: the key moves on a step, and the new one goes to them
#[verifier::opaque]
spec fn key_for_newcomers(before: State, to: Set<Seq<u8>>, s: State) -> bool {
    &&& stepped_on(before.frame_crypto_context, s.frame_crypto_context)
    &&& key_sent_if_in(
        before,
        s,
        s.frame_crypto_context.sender_state.ratchet_counter as u32,
        s.frame_crypto_context.sender_state.current_secret@,
        to,
    )
    &&& s == (State { observer: s.observer, frame_crypto_context: s.frame_crypto_context, ..before })
}

// a key that waits to be used goes to them too
#[verifier::opaque]
spec fn waiting_key_for_newcomers(before: State, to: Set<Seq<u8>>, s: State) -> bool {
    &&& match before.media_send_key_rotation_state {
        KeyRotationState::Pending { secret, .. } => key_sent_if_in(before, s, 0, secret@, to),
        KeyRotationState::Applied => s.observer == before.observer,
    }
    &&& s == (State { observer: s.observer, ..before })
}

// keys that came for devices not listed then are looked at again
spec fn keys_retaken(st: Seq<State>, l: Seq<(UserId, DemuxId, u8, Secret)>) -> bool {
    &&& st.len() == l.len() + 1
    &&& forall|i: int| #![trigger l[i]] 0 <= i < l.len() ==> key_taken(st[i], st[i + 1], l[i].0@, l[i].1, l[i].2, l[i].3)
}

proof fn one_more_retaken(st: Seq<State>, l: Seq<(UserId, DemuxId, u8, Secret)>, n: int, s: State)
    requires
        0 <= n < l.len(),
        keys_retaken(st, l.take(n)),
        key_taken(st.last(), s, l[n].0@, l[n].1, l[n].2, l[n].3),
    ensures
        keys_retaken(st.push(s), l.take(n + 1)),
        st.push(s).last() == s,
        st.push(s)[0] == st[0],
{
    let t = l.take(n + 1);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies key_taken(
        st.push(s)[i],
        st.push(s)[i + 1],
        t[i].0@,
        t[i].1,
        t[i].2,
        t[i].3,
    ) by {
        if i < n {
            assert(l.take(n)[i] == t[i]);
        }
    }
}

#[verifier::opaque]
spec fn keys_looked_at_again(before: State, s: State) -> bool {
    exists|st: Seq<State>| #[trigger]
        keys_retaken(st, before.pending_media_receive_keys@) && st.last() == s && st[0].pending_media_receive_keys@ == Seq::<
            (UserId, DemuxId, u8, Secret),
        >::empty() && st[0] == (State { pending_media_receive_keys: st[0].pending_media_receive_keys, ..before })
}

pub open spec fn is_sharing(s: State) -> bool {
    s.outgoing_heartbeat_state.sharing_screen == Some(true)
}

// what is sent depends on how many others are there
#[verifier::opaque]
spec fn rates_follow(before: State, p: PeekInfo, me: DemuxId, others: int, s: State) -> bool {
    if is_listed(p.devices@, me) {
        exists|r: SendRates| #[trigger] rates_for(others, is_sharing(before), r) && rates_set(before, s, r)
    } else {
        s == before
    }
}

// the stages of a peek
pub struct Stages {
    pub told: State,
    pub listed: State,
    pub let_in: State,
    pub stepped: State,
    pub sent: State,
    pub rotated: State,
    pub keys: State,
    pub rates: State,
}

#[verifier::opaque]
spec fn peek_told(before: State, p: PeekInfo, s: State) -> bool {
    &&& s.observer.log@ == if peek_is_news(before, p) {
        before.observer.log@.push(Act::PeekChanged { users: users_listed(p.devices@) })
    } else {
        before.observer.log@
    }
    &&& s.remote_devices_request_state is Updated
    &&& s == (State {
        observer: s.observer,
        joined_members: s.joined_members,
        remote_devices_request_state: s.remote_devices_request_state,
        ..before
    })
}

spec fn peek_in_call(before: State, p: PeekInfo, me: DemuxId, exp: Option<Timestamp>, m: Stages) -> bool {
    let added = ids_of(m.listed.remote_devices.0@).difference(ids_of(before.remote_devices.0@));
    let to = users_with(m.listed.remote_devices.0@, added);
    &&& peek_told(before, p, m.told)
    &&& devices_follow(m.told, p, me, m.listed)
    &&& let_in(m.listed, p, me, m.let_in)
    &&& if to == Set::<Seq<u8>>::empty() {
        m.stepped == m.let_in && m.sent == m.stepped
    } else {
        key_for_newcomers(m.let_in, to, m.stepped) && waiting_key_for_newcomers(m.stepped, to, m.sent)
    }
    &&& if before.joined_members@.subset_of(users_listed(p.devices@)) {
        m.rotated == m.sent
    } else {
        rotated(m.sent, m.rotated, exp)
    }
    &&& keys_looked_at_again(m.rotated, m.keys)
    &&& rates_follow(m.keys, p, me, ids_of(m.listed.remote_devices.0@).len() as int, m.rates)
}

// what stays to do at the end of every peek
spec fn peek_noted(last: State, p: PeekInfo, others: bool, again: bool, after: State) -> bool {
    let done = State {
        remote_devices_request_state: last.remote_devices_request_state,
        sfu_client: last.sfu_client,
        ..after
    };
    &&& if again {
        exists|now: Instant| #[trigger] a_time(now) && devices_asked(done, 0, true, now, after)
    } else {
        after == done
    }
    &&& after.last_peek_info == Some(p)
    &&& after.joined_members@ == users_listed(p.devices@)
    &&& after.pending_users_signature == waiting(p)
    &&& after == (State {
        last_peek_info: after.last_peek_info,
        joined_members: after.joined_members,
        pending_users_signature: after.pending_users_signature,
        remote_devices_request_state: after.remote_devices_request_state,
        sfu_client: after.sfu_client,
        outgoing_ring_state: if others && last.outgoing_ring_state is HasSentRing {
            OutgoingRingState::NotPermittedToRing
        } else {
            last.outgoing_ring_state
        },
        ..last
    })
}

// was the server to be asked again once it answered?
spec fn to_ask_again(s: State) -> bool {
    s.remote_devices_request_state matches RemoteDevicesRequestState::Requested { should_request_again, .. }
        && should_request_again
}

spec fn peeked(before: State, p: PeekInfo, exp: Option<Timestamp>, after: State) -> bool {
    match me_in_call(before) {
        None => exists|m: Stages| #[trigger] peek_told(before, p, m.told) && peek_noted(m.told, p, false, to_ask_again(before), after),
        Some(me) => {
            ||| after.observer.log@.len() > 0 && after.observer.log@.last() is Ending
            ||| exists|m: Stages| #[trigger]
                peek_in_call(before, p, me, exp, m) && peek_noted(
                    m.rates,
                    p,
                    ids_of(m.listed.remote_devices.0@) != Set::<DemuxId>::empty(),
                    to_ask_again(before),
                    after,
                )
        },
    }
}

impl Client {
    // the streams' slots follow the device list; true: WebRTC refused, the call has ended
    //% fn Client::set_peek_result_inner@if demux_ids_changed \{ as slots_follow
        requires
            old(state).dhe_state is Negotiated,
        ensures
            r ==> final(state).observer.log@.len() > 0 && final(state).observer.log@.last() is Ending,
            !r ==> {
                &&& *final(state) == (State {
                    remote_transceiver_demux_ids: final(state).remote_transceiver_demux_ids,
                    ..*old(state)
                })
                &&& if old(state).sfu_info is Some {
                    slots_updated(
                        old(state).remote_transceiver_demux_ids@,
                        new_demux_ids@,
                        added_demux_ids@,
                        final(state).remote_transceiver_demux_ids@,
                    )
                } else {
                    final(state).remote_transceiver_demux_ids@ == old(state).remote_transceiver_demux_ids@
                }
            },
    //% attr verifier::loop_isolation(false)
    //% sig fn slots_follow(state: &mut State, new_demux_ids: &VSet<DemuxId>, added_demux_ids: &VSet<DemuxId>, local_demux_id: DemuxId) -> (r: bool)
    //% sub? return; ==> return true;
    //% sub \}\s*\Z ==> false }
    //% sub? srtp_keys ==> vx_srtp_keys(&state.dhe_state)
    //% sub? (\w+)\.iter\(\)\.copied\(\) ==> vx_iter(\1.clone())
    //% sub? state\s*\.remote_transceiver_demux_ids\s*\.extend\((\w+)\.map\(Some\)\) ==> vx_extend_some(&mut state.remote_transceiver_demux_ids, \1)
    //% closure 0
        |id: DemuxId| -> (v: bool)
            ensures
                v == !new_demux_ids@.contains(id),
    //% head
        let ghost vx_kept = slots_pruned(state.remote_transceiver_demux_ids@, new_demux_ids@);
    //% loop 0
        invariant
            vx_i_0 <= state.remote_transceiver_demux_ids@.len(),
            state.remote_transceiver_demux_ids@.len() == vx_kept.len(),
            *state == (State { remote_transceiver_demux_ids: state.remote_transceiver_demux_ids, ..*old(state) }),
            forall|j: int|
                0 <= j < vx_kept.len() ==> #[trigger] state.remote_transceiver_demux_ids@[j] == if j < vx_i_0 {
                    vx_kept[j]
                } else {
                    (*old(state)).remote_transceiver_demux_ids@[j]
                },
        decreases state.remote_transceiver_demux_ids@.len() - vx_i_0,
    //% before if removed_demux_id
        proof {
            assert(state.remote_transceiver_demux_ids@ =~= vx_kept);
        }
    //% after let mut added_demux_ids_iter
        broadcast use set_order_is;
        let ghost vx_q = added_demux_ids_iter@;
        proof {
            assert(views(vx_q) =~= vx_q);
            assert(vx_kept.skip(0) =~= vx_kept);
            assert(state.remote_transceiver_demux_ids@ == vx_kept);
        }
    //% loop 1
        invariant
            vx_i_1 <= state.remote_transceiver_demux_ids@.len(),
            state.remote_transceiver_demux_ids@.len() == vx_kept.len(),
            *state == (State { remote_transceiver_demux_ids: state.remote_transceiver_demux_ids, ..*old(state) }),
            forall|j: int| vx_i_1 <= j < vx_kept.len() ==> #[trigger] state.remote_transceiver_demux_ids@[j] == vx_kept[j],
            slots_filled(vx_kept, vx_q) =~= state.remote_transceiver_demux_ids@.take(vx_i_1 as int) + slots_filled(
                vx_kept.skip(vx_i_1 as int),
                added_demux_ids_iter@,
            ),
        decreases state.remote_transceiver_demux_ids@.len() - vx_i_1,
    //% loophead 1
        proof {
            slots_fill_step(vx_kept, vx_i_1 as int, added_demux_ids_iter@);
        }
    //% after vx_extend_some
        proof {
            assert(vx_kept.skip(vx_kept.len() as int) =~= Seq::empty());
            assert(state.remote_transceiver_demux_ids@ =~= slots_filled(vx_kept, vx_q));
            assert(vx_q.to_set() == added_demux_ids@);
        }
    //% end

    //% fn Client::set_peek_result_inner
        requires
            old(state).frame_crypto_context.wf(),
        ensures
            match result {
                Ok(p) => peeked(*old(state), p, endorsements_expiration, *final(state)),
                Err(_) => final(state).remote_devices_request_state is Failed && *final(state) == (State {
                    remote_devices_request_state: final(state).remote_devices_request_state,
                    ..*old(state)
                }),
            },
    //% attr verifier::rlimit(60)
    //% attr verifier::spinoff_prover
    //% sub? PeekResult ==> Result<PeekInfo, VxError>
    //% sub? HashSet ==> VSet
    //% sub? HashMap ==> VMap
    //% sub? std::mem::take\(&mut state\.remote_devices\)\s*\.into_iter\(\) ==> vx_iter(vx_take_devices(&mut state.remote_devices).0)
    //% sub? std::mem::take\(&mut state\.joined_members\) ==> vx_take_set(&mut state.joined_members)
    //% sub? std::mem::take\(&mut state\.pending_media_receive_keys\) ==> vx_take_vec(&mut state.pending_media_receive_keys)
    //% sub? SystemTime::now\(\) ==> vx_system_now()
    //% sub? Instant::now\(\) ==> vx_later()
    //% sub peek_info\s*\.unique_pending_users\(\)\s*\.into_iter\(\)\s*\.map\(.*?\)\s*\.fold\(.*?\}\) ==> vx_waiting(&peek_info)
    //% cut state\.remote_devices = peek_info\s*\.devices\s*\.iter\(\)\s*\.filter_map\(\|device\| \{ ==> state.remote_devices = (vx_refresh(&peek_info.devices, local_demux_id, added_time, &mut local_device_is_participant, &mut old_remote_devices_by_demux_id, Ghost(vx_was))
    //% sub? peek_info\s*\.devices\s*\.iter\(\)\s*(?://[^\n]*\s*)*\.filter_map\(\|device\| device\.user_id ==> peek_info.devices.vx_iter().filter_map(|device| device.user_id
    //% sub? old_era_id != peek_info\.era_id\.as_ref\(\) ==> vx_other_text(old_era_id, peek_info.era_id.as_ref())
    //% sub? (\w+)\.difference\(&(\w+)\)\.copied\(\)\.collect\(\) ==> \1.vx_minus(&\2)
    //% sub? (\w+)\.difference\(&(\w+)\)\.next\(\)\.is_some\(\) ==> \1.vx_has_more_than(&\2)
    //% cut if demux_ids_changed \{ ==> if demux_ids_changed { if Self::slots_follow(state, &new_demux_ids, &added_demux_ids, local_demux_id) { return; } }
    //% sub? state\s*\.remote_devices\s*\.iter\(\) ==> state.remote_devices.0.vx_iter()
    //% cut if pending_users_changed \{ ==> 
    //% head
        hide(key_sent_if_in);
        hide(key_taken);
        hide(rates_set);
        hide(refreshed);
        hide(rotated);
        broadcast use by_id_collected, listed_users_collected, users_with_collected, rotated_is_sound;
        let ghost vx_old = *state;
        let ghost mut vx_m = Stages {
            told: *state,
            listed: *state,
            let_in: *state,
            stepped: *state,
            sent: *state,
            rotated: *state,
            keys: *state,
            rates: *state,
        };
        let ghost vx_was = state.remote_devices.0@;
        let ghost vx_p = result->Ok_0;
    //% closure 0
        |device: &PeekDeviceInfo| -> (v: Option<UserId>)
            ensures
                v is Some == device.user_id is Some,
                v matches Some(u) ==> device.user_id is Some && u@ == device.user_id.unwrap()@,
    //% closure 1
        |peek_info: &PeekInfo| -> (v: Option<&String>)
            ensures
                v == (match peek_info.era_id {
                    Some(e) => Some(&e),
                    None => None,
                }),
    //% closure 2
        |rd: RemoteDeviceState| -> (v: (DemuxId, RemoteDeviceState))
            ensures
                v == (rd.demux_id, rd),
    //% closure 3
        |device: &&RemoteDeviceState| -> (v: bool)
            ensures
                v == added_demux_ids@.contains(device.demux_id),
    //% closure 4
        |device: &RemoteDeviceState| -> (v: UserId)
            ensures
                v@ == device.user_id@,
    //% before if let \($
        proof {
            vx_m.told = *state;
            assert(peek_told(vx_old, vx_p, vx_m.told)) by { reveal(peek_told); }
        }
    //% before if local_device_is_participant &&
        proof {
            vx_m.listed = *state;
            assert(devices_follow(vx_m.told, vx_p, local_demux_id, vx_m.listed)) by { reveal(devices_follow); }
        }
    //% before let users_with_added_devices
        proof {
            vx_m.let_in = *state;
            vx_m.stepped = *state;
            assert(let_in(vx_m.listed, vx_p, local_demux_id, vx_m.let_in)) by { reveal(let_in); }
        }
    //% before if !users_with_added_devices
        let ghost vx_to = users_with_added_devices@;
    //% before Self::send_pending_media_send_key
        proof {
            vx_m.stepped = *state;
            assert(key_for_newcomers(vx_m.let_in, users_with_added_devices@, vx_m.stepped)) by { reveal(key_for_newcomers); }
        }
    //% before if old_user_ids
        proof {
            vx_m.sent = *state;
            if vx_m.stepped != vx_m.let_in || vx_to != Set::<Seq<u8>>::empty() {
                assert(waiting_key_for_newcomers(vx_m.stepped, vx_to, vx_m.sent)) by { reveal(waiting_key_for_newcomers); }
            }
        }
    //% before let pending_receive_keys
        proof { vx_m.rotated = *state; }
        let ghost vx_l = state.pending_media_receive_keys@;
        let ghost mut vx_n: int = 0;
        let ghost mut vx_others: int = 0;
    //% after let pending_receive_keys
        let ghost mut vx_st: Seq<State> = seq![*state];
        let ghost vx_st0 = *state;
    //% before if local_device_is_participant \{
        proof {
            assert(vx_l.take(vx_l.len() as int) =~= vx_l);
            assert(vx_l.skip(vx_l.len() as int) =~= Seq::empty());
            vx_m.keys = *state;
            vx_others = ids_of(vx_m.listed.remote_devices.0@).len() as int;
            assert(keys_looked_at_again(vx_m.rotated, vx_m.keys)) by {
                reveal(keys_looked_at_again);
                assert(keys_retaken(vx_st, vx_m.rotated.pending_media_receive_keys@));
            }
        }
    //% before if !new_demux_ids.is_empty
        proof {
            vx_m.rates = *state;
            assert(is_listed(vx_p.devices@, local_demux_id) == local_device_is_participant);
            if !local_device_is_participant {
                assert(rates_follow(vx_m.keys, vx_p, local_demux_id, vx_others, *state)) by {
                    reveal(rates_follow);
                }
            }
        }
    //% before state\.last_peek_info = 
        proof {
            if let Some(me) = me_in_call(vx_old) {
                assert(peek_in_call(vx_old, vx_p, me, endorsements_expiration, vx_m));
            } else {
                assert(peek_told(vx_old, vx_p, vx_m.told));
            }
        }
    //% before Self::set_send_rates_inner
        let ghost vx_r = send_rates;
    //% after Self::set_send_rates_inner
        proof {
            assert(rates_follow(vx_m.keys, vx_p, local_demux_id, vx_others, *state)) by {
                reveal(rates_follow);
                assert(rates_for(vx_others, is_sharing(vx_m.keys), vx_r));
                assert(rates_set(vx_m.keys, *state, vx_r));
                assert(is_listed(vx_p.devices@, local_demux_id));
            }
        }
    //% loop 0
        invariant
            0 <= vx_n <= vx_l.len(),
            vx_it_0@ == vx_l.skip(vx_n),
            keys_retaken(vx_st, vx_l.take(vx_n)),
            vx_st[0] == vx_st0,
            vx_st.last() == *state,
            state.frame_crypto_context.wf(),
        ensures
            vx_it_0@.len() == 0,
        decreases vx_it_0@.len(),
    //% loophead 0
        proof {
            assert(vx_l.skip(vx_n)[0] == vx_l[vx_n]);
            assert(vx_l[vx_n] == (user_id, demux_id, ratchet_counter, secret));
            assert(vx_l.skip(vx_n + 1) =~= vx_it_0@);
        }
    //% sub? (Self::add_media_receive_key_or_store_for_later\([^()]*\);) ==> \1 proof { one_more_retaken(vx_st, vx_l, vx_n, *state); vx_st = vx_st.push(*state); vx_n = vx_n + 1; }
    //% end
}
