//% source src/rust/src/core/group_call.rs
//% item struct State fields=client_id,group_id,kind,observer,self_uuid,join_state,remote_devices,group_send_endorsement_cache,frame_crypto_context,pending_media_receive_keys,media_send_key_rotation_state,actor,peer_connection,send_rates,send_rates_override,bwe_check_state,last_peek_info,remote_devices_request_state,joined_members,pending_users_signature,dhe_state,sfu_info,remote_transceiver_demux_ids,call_summary,outgoing_heartbeat_state,outgoing_ring_state,sfu_client sub=HashMap=>VMap sub=Box<dyn{}SfuClient>=>SfuClient sub=Arc<CallMutex<bool>>=>bool sub=HashSet=>VSet sub=Box<dyn{}Observer>=>Observer sub=Arc<CallMutex<Option<UserId>>>=>Option<UserId> sub=Arc<CallMutex<frame_crypto::Context>>=>Context sub=frame_crypto::=> sub=Actor<State>=>Actor
