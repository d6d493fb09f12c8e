import json,subprocess
log=dict(reversed(l.split(' ',1)) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines() if ' fix: ' in ' '+l)
fixed=[
('S03','a dispute without votes can only carry','an empty chain of blocks with the genesis state as finalized state let any state be installed'),
('S04','disputes on the genesis state can be challenged','a dispute created without blocks could never be challenged (index out of bounds)'),
('S03','replace the chain of a dispute','a challenge appended its chain to the one of the dispute instead of replacing it'),
('S14','a new dispute starts without the verdicts','slashes, joins and the timeout accuser of an earlier dispute leaked into the next one'),
('S09','a fold rechallenge needs a pending timeout','a rechallenge proof without a timeout slashed address zero or an old accuser and counted as a successful proof'),
('S06','double sign proofs only concern participants','two blocks by any outsider opened a dispute'),
('S07','incorrect data proofs check the heights','a correct later block could be judged from the genesis state or from an unrelated predecessor'),
('S08','newer state proofs need a block above','the posted block itself (or no block at all) made the proof succeed or revert'),
('S10','a prior block proof times out the author','the author of the last posted block was timed out instead of the author of the named block'),
('S12','join proofs are rejected after','the join deadline was inverted'),
('S18','joining with agreement uses','joinChannelWithAgreement always reverted'),
('S19','leaving with agreement uses','leaveChannelWithAgreement always reverted'),
('S05','a timeout at height zero is only possible','a timeout at height zero was accepted on top of later blocks, bypassing the postings check'),
('S15','a new dispute does not drop the exits','exits recorded by a dispute were lost when the next dispute started before they were paid out'),
('T01','blocks enter a fork only at its next height','a block beyond the next height (or below, after a gap) was stored at the wrong height'),
('T20','dispute proofs are encoded with the types','block heights of prior-block proofs and other proof fields were encoded with types the contract does not decode'),
('T20','a join agreement is encoded with the fields','a join agreement was encoded without fields the contract decodes'),
('T10','a block whose validation fails is neither','a failure during validation of a received block was treated as success: the block was confirmed to the peers without having been checked, or the mutex stayed taken'),
('T08','a block with a timestamp before the agreed chain','a received block dated before the agreed chain made its handling fail with an internal error'),
('T08','a refused block leaves the state machine','a block with a wrong state hash left the state machine in the state after it'),
('T08','a dispute raised during validation does not fail','a block judged incorrect during validation made its handling fail with an internal error'),
('T09','a stale transaction is not authored','two concurrent local transactions were both signed as blocks of the same height'),
('T09','a new state is taken over atomically','a repeated or concurrent new-state event reset the state machine under the agreed chain'),
('T07','early block confirmations are queued','every confirmation that arrived before its block failed with an internal error and was lost'),
('T05','votes never finalize a state equal','a chain whose finalized state equals the genesis state of the fork (the game returned to its start) was submitted without its beginning and refused by the contract'),
('T03','a dispute without a timeout names the zero','disputes without a timeout named 0x00 as participant, which is not an address: encoding failed and no dispute was ever raised'),
('T14','a timeout is rechallenged whatever','a rechallenge proof was filtered out because a number was compared with a bigint, so a refuted timeout was never challenged'),
('T14','an incorrect block is proven against','the proof of an incorrect block paired it with the wrong block order and state and was refused by the contract'),
('T14','newer state proofs are kept for the confirmer','a newer state proof was dropped unless the accused authored the block, and never used against a posted genesis state'),
('T14','a prior block proof is not kept','a prior block proof was resubmitted after it had its effect, making the challenge fail'),
('T13','a challenge names the current challenge number','every challenge named a challenge number the contract does not accept'),
('T13','a slashed participant does not challenge','a slashed node kept challenging, failing and throwing in the background'),
('S09','a timeout is undone even if','a refuted timeout stayed when the party that raised it was already slashed (the challenge reverted)'),
('T13','proofs derived from the records are submitted once','the same rechallenge proof was submitted twice after an overtaken challenge, which made every further challenge revert'),
('T13','evidence is used when somebody else','evidence found when somebody else had already opened a dispute was never submitted, and raising it failed'),
('T13','a dispute that fails in the background','a dispute that could not be raised ended in an unhandled rejection (which ends the node)'),
('T12','a timeout is decided on what is known','a timeout that was postponed, or decided while a lookup was pending, was raised although the block had arrived, the fork had been replaced, or the window had not passed; with a posting seen in between it was never raised'),
('T16','answering a handshake challenge signs nothing but a handshake','a node signed whatever bytes a peer sent as handshake challenge, so a challenge equal to the hash of a block got its signature as that block'),
('T16','a handshake is answered on the connection that asked','an answer went to whatever peer was looked up instead of the connection that asked'),
('T16','a handshake challenge is neither reused nor reflected','an answered challenge could be answered again, and a challenge sent back to its issuer was answered by itself'),
('T16','a handshake needs the time of the peer','a handshake without a usable clock of the peer registered it all the same'),
('T18','a removed connection is closed and no longer heard','a replaced or removed connection stayed open and its messages were still handled'),
('T18','a peer profile only holds its own entries','a profile kept entries in the peer tables that another profile had taken over, and removing it removed the other one'),
('T18','a failing connection does not stop a broadcast','one broken connection made a broadcast miss all later peers'),
('T19','a failure while handling a message is contained','a rejected handler or a message that is no JSON object ended in an unhandled rejection (which ends the node)'),
('T19','the parameters of a message are a list','parameters that are not a list were spread into the handler'),
('T01','the first state of a channel opens it','a state of fork 0 announced on chain was ignored by a node without forks (introduced by an earlier repair)'),
('T07','a channel without a state is not open yet','blocks that came before the first state were validated against a fork that does not exist, failed and were lost'),
('T07','nothing unauthentic is queued before the channel opens','a forged block that came before the first state took the place of the real one in the queue'),
('T07','a confirmation before the channel opens keeps its block','a confirmation that came before the first state was dropped with the block it carried'),
('T08','a block only counts in the encoding its records','a block signed in a non-canonical encoding was adopted, but every record and proof of it carried a signature over other bytes'),
('T19','a failing queued message does not stop the others','one queued block or confirmation that failed dropped all the others that were queued with it'),
('T16','closing a local transport does not cut off','the answer to the last handshake message was lost when the local discovery server closed the connection'),
('T11','a transaction that fails halfway leaves the state machine','a transaction that failed after it had run (signature, machine call) left the state machine moved: every later block was refused'),
('T11','a late block is on chain before','an author that was late sent its block before posting it, with which every peer could have slashed it, and none adopted it'),
('T11','an authored block reaches the others whatever','a failing hook or machine call after a block was authored kept the block from being sent, while the author went on from it'),
('T30','calls of the embedded state machine do not overlap','calls of the embedded EVM overlapped and shared its journal: a refused transition (or any failing call) undid a transition, or left the machine locked, that ran at the same time'),
('T30','a view does not change the state machine','a view call that writes changed the state of the machine, after which every block was refused'),
('T08','a signature only counts in the form the contracts read','blocks and confirmations signed in a form only the library reads (compact, v of 0 or 1) were adopted and confirmed, but no contract accepts them'),
('T31','a failing hook does not get in the way of the node','an application hook that threw kept a posting or a dispute from being submitted, an event from being handled, or ended in an unhandled rejection'),
('T31','the chain events of exactly the current channel','switching channels while an earlier switch was under way left subscriptions to the old channel (whose events were then taken for the new one), disposing left them all, and a failure in a handler ended in an unhandled rejection'),
('T31','a failure after collecting a posted block is contained','a machine failure after a block was collected from the chain ended in an unhandled rejection'),
('T31','a disposed node raises no timeout','a node disposed while it was asking the chain for a posting still raised a timeout dispute'),
('T32','a join request is only signed for the own channel','a node signed any join request a peer sent, also bytes that Solidity reads as a block: with it the node could be slashed for a double sign'),
('T32','a join request is passed on once, with everybody','the own consent was recorded as that of the joiner, so a request never completed; confirmations that came with the first message were lost, a completed request was passed on again with every further message, with whatever joiner signature that carried, and a far deadline made nodes sign and announce without end'),
('T33','WebRTC candidates go to the peer','WebRTC candidates were sent to whoever the node had last heard from instead of the peer the connection is for; a failure to set the offer was an unhandled rejection'),
('T34','a disposed node leaves the network to others','a relay of a disposed node that failed made that node take over the connections of the node created after it, and peers that still connected to a disposed node were answered; without any relay joining a topic and disposing failed'),
('T35','a channel is the same however its id is written','a node told its channel in upper case or as bytes refused every block of it, and looked for its peers elsewhere than nodes told it otherwise'),
('T35','channels with similar ids do not share a topic','channels whose ids share their first 15 bytes met under one topic')
]
out=[]
for p,s,w in fixed:
    m=[(h,t) for t,h in log.items() if s in t]
    assert len(m)==1,(s,m)
    out.append({'id':f'fixed-{p}-{m[0][0]}','property':p,'status':'fixed','commit':m[0][0],'what':w,'line':f'fixed: property={p} {m[0][0]} {w}'})
known=json.load(open('/verif/tools/known.json'))
json.dump({'findings':known+out},open('/verif/known-findings.json','w'),indent=1)
