From 69abf772d6067e355313411b90288107beb71b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:19 +0000
Subject: [PATCH 01/22] fix: reject packets that do not fit behind the length
 field in the receive buffer

A packet_length between buf.len() - 3 and buf.len() passed the check and then
panicked when slicing the buffer for the body.
---
 nora_ssh/src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/packet.rs b/nora_ssh/src/packet.rs
index 439b092..34d42aa 100644
--- a/nora_ssh/src/packet.rs
+++ b/nora_ssh/src/packet.rs
@@ -13,7 +13,7 @@ pub async fn parse<'a, Io: AsyncReadExt + Unpin>(
 	let len = u32::from_be_bytes(buf[..4].try_into().unwrap())
 		.try_into()
 		.unwrap();
-	if len > buf.len() {
+	if len > buf.len() - 4 {
 		return Err(PacketParseError::TooLarge(len));
 	} else if len < 8 {
 		return Err(PacketParseError::TooSmall(len));
-- 
2.43.0


From e8a77ea06c347107f6085d766c83f0bed6acc359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:19 +0000
Subject: [PATCH 02/22] fix: accept well-formed host keys in ECDH replies

Key::parse required the data passed to KeyBlob::parse to be empty, so every
valid KEX_ECDH_REPLY was rejected. KeyBlob::parse already rejects trailing data.
---
 nora_ssh_core/src/message/key_exchange/ecdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh_core/src/message/key_exchange/ecdh.rs b/nora_ssh_core/src/message/key_exchange/ecdh.rs
index 3db86c9..fd95e53 100644
--- a/nora_ssh_core/src/message/key_exchange/ecdh.rs
+++ b/nora_ssh_core/src/message/key_exchange/ecdh.rs
@@ -79,7 +79,7 @@ impl<'a> Key<'a> {
 	fn parse(data: &'a [u8]) -> Option<Self> {
 		let (name, data) = parse_string(data)?;
 		let blob = KeyBlob::parse(data)?;
-		data.is_empty().then(|| Self { name, blob })
+		Some(Self { name, blob })
 	}
 
 	fn serialize<'i>(&self, buf: &'i mut [u8]) -> Option<(usize, &'i mut [u8])> {
-- 
2.43.0


From 4a19d1e9867e973b4a47be188c38558bd08e737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:19 +0000
Subject: [PATCH 03/22] fix: skip every line before the identification string

Lines that were empty, a prefix of "SSH-" or ended in CR CR LF made the parser
miss the end of the line and hence the identification that follows. Also, lines
starting with "SSSH-" were mistaken for an identification.
---
 nora_ssh/src/identifier.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index c45a942..1104336 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -30,11 +30,10 @@ where
 		state = match (state, b) {
 			(State::EolLf, b'S') => State::S,
 			(State::S, b'S') => State::SS,
-			(State::SS, b'S') => State::SS,
 			(State::SS, b'H') => State::SSH,
 			(State::SSH, b'-') => break,
-			(State::Ignore, b'\r') => State::EolCr,
 			(State::EolCr, b'\n') => State::EolLf,
+			(_, b'\r') => State::EolCr,
 			_ => State::Ignore,
 		};
 	}
-- 
2.43.0


From d10f7e132c6834a79909bdee1c73a1418cc9b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:19 +0000
Subject: [PATCH 04/22] fix: use a random cookie in KEXINIT

RFC 4253 section 7.1 requires the cookie to be random, a constant one lets the
client alone determine all inputs of the exchange hash but the ephemeral key.
---
 nora_ssh/src/host.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3ea0ae4..e214d62 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -112,6 +112,8 @@ impl Host<p256::NistP256> {
 		identifier::send(self.identifier, write)
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		let mut cookie = [0; 16];
+		rng.fill_bytes(&mut cookie);
 		let mut host_pkt = [0; 256];
 		let host_pkt = Packet::wrap(
 			&mut host_pkt,
@@ -119,7 +121,7 @@ impl Host<p256::NistP256> {
 			true,
 			|buf| {
 				Message::KeyExchangeInit(KeyExchangeInit {
-					cookie: b"nomnommunchmunch",
+					cookie: &cookie,
 					kex_algorithms: b"curve25519-sha256".try_into().unwrap(),
 					server_host_key_algorithms: b"ecdsa-sha2-nistp256".try_into().unwrap(),
 					encryption_algorithms_client_to_server: b"chacha20-poly1305@openssh.com"
-- 
2.43.0


From 793a502dfcdbd84534b0c2b6a6c2f5a1764e64ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:23 +0000
Subject: [PATCH 05/22] fix: do not panic on unexpected or malformed key
 exchange messages

The ECDH init and NEWKEYS messages of the client were unwrapped, as was the
size of its public key.
---
 nora_ssh/src/host.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index e214d62..e5b2e8c 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -199,11 +199,12 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		let client_ephermal_public = Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_kex_ecdh_init()
-			.unwrap()
+			.ok_or(HandleNewClientError::ExpectedKeyExchangeEcdhInit)?
 			.client_ephermal_public_key;
-		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public).unwrap();
+		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public)
+			.map_err(|_| HandleNewClientError::InvalidPublicKey)?;
 		let client_ephermal_public = x25519_dalek::PublicKey::from(client_ephermal_public);
 
 		let server_public_key = self.host_key.public.to_encoded_point(false);
@@ -281,7 +282,7 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_new_keys()
 			.ok_or(HandleNewClientError::ExpectedKeys)?;
 
@@ -296,6 +297,8 @@ pub enum HandleNewClientError {
 	PacketParseError(PacketParseError),
 	ExpectedKeyExchangeInit,
 	UnsupportedAlgorithms,
+	ExpectedKeyExchangeEcdhInit,
+	InvalidPublicKey,
 	ExpectedKeys,
 	#[allow(dead_code)]
 	Read(io::Error), // FIXME how come this is unused?
-- 
2.43.0


From 3e60fb30b4fc53c5824fad1203a1081af5d6cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:24 +0000
Subject: [PATCH 06/22] fix: abort the key exchange if the shared secret is
 all-zero

Required by RFC 8731 section 3, a client public key of small order otherwise
yields a shared secret known to everyone.
---
 nora_ssh/src/host.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index e5b2e8c..40ef810 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -223,6 +223,9 @@ impl Host<p256::NistP256> {
 			.update(client_ephermal_public.as_bytes())
 			.update(server_ephermal_public.as_bytes());
 		let shared_secret = server_ephermal_secret.diffie_hellman(&client_ephermal_public);
+		if !shared_secret.was_contributory() {
+			return Err(HandleNewClientError::InvalidPublicKey);
+		}
 		let hash = exchange_hash.update(shared_secret.as_bytes());
 		let sig = self.host_key.secret.sign(&hash);
 
-- 
2.43.0


From deb0d9ae57a1de8cbe8f7c71279154f135ed979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:03 +0000
Subject: [PATCH 07/22] fix: do not lose wakeups of tasks waiting for a
 LocalMutex

A waiter registered its waker only once, so it slept forever if another task
took the lock between its wakeup and its next poll. Likewise, waking a waiter
that had been dropped or that has a newer waker woke nobody. Register on every
poll and wake all waiters on release, those that do not get the lock register
again.
---
 nora_ssh/src/sync.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 4e7aff5..a184571 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -17,7 +17,7 @@ impl<T> LocalMutex<T> {
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self, registered: false }
+		LocalMutexGuardFuture { inner: self }
 	}
 
 	fn push_waker(&self, waker: Waker) {
@@ -26,30 +26,25 @@ impl<T> LocalMutex<T> {
 		self.queue.set(q);
 	}
 
-	fn pop_waker(&self) -> Option<Waker> {
-		let mut q = self.queue.take();
-		let w = q.pop();
-		self.queue.set(q);
-		w
+	fn wake_all(&self) {
+		for w in self.queue.take() {
+			w.wake();
+		}
 	}
 }
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
-	registered: bool,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	type Output = LocalMutexGuard<'a, T>;
 
-	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
 		match self.inner.inner.try_borrow_mut() {
 			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
 			Err(_) => {
-				if !self.registered {
-					self.inner.push_waker(cx.waker().clone());
-					self.registered = true;
-				}
+				self.inner.push_waker(cx.waker().clone());
 				Poll::Pending
 			}
 		}
@@ -77,6 +72,6 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		self.inner.pop_waker().map(|w| w.wake());
+		self.inner.wake_all();
 	}
 }
-- 
2.43.0


From 47d525bf5743d8a935e3d90c1fd2ab3911576b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:27 +0000
Subject: [PATCH 08/22] fix: do not panic on unexpected messages, methods or
 errors during authentication

Any client could take down the server, including all other connections, by
closing the connection early, requesting another service, sending another
message than a userauth request, using an unsupported method or a large key.
Unsupported methods are now answered with a failure, the rest ends the
connection. Large keys need a reply buffer as large as the receive buffer.
---
 nora_ssh/src/server.rs | 48 ++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0234c21..9e1421d 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -98,26 +98,27 @@ where
 
 		let mut pkt_buf = Vec::new();
 		pkt_buf.resize(35000, 0);
-		let mut pkt_buf_mini = [0; 256];
+		let mut reply_buf = Vec::new();
+		reply_buf.resize(35000, 0);
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.unwrap();
-		let msg = Message::parse(data).unwrap();
-		let srv = <&[u8]>::from(msg.into_service_request().unwrap());
+		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+		let msg = Message::parse(data).map_err(|_| ())?;
+		let srv = <&[u8]>::from(msg.into_service_request().ok_or(())?);
 		match srv {
 			b"ssh-userauth" => {
 				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
 				wr_enc
 					.send(
-						&mut pkt_buf_mini,
+						&mut reply_buf,
 						|buf| msg.serialize(buf).unwrap().0.len(),
 						&mut wr,
 						&mut rng,
 					)
 					.await
-					.unwrap();
+					.map_err(|_| ())?;
 			}
-			_ => todo!(),
+			_ => return Err(()),
 		}
 
 		// Attempt authentication
@@ -126,10 +127,13 @@ where
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
 			let msg = Message::parse(data).map_err(|_| ())?;
-			let ua = msg.into_user_auth().unwrap().into_request().ok_or(())?;
+			let ua = msg
+				.into_user_auth()
+				.and_then(|ua| ua.into_request())
+				.ok_or(())?;
 
 			let auth = match ua.method {
-				Method::None => Auth::None,
+				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
 					let (a, b) = data::parse_string(blob).ok_or(())?;
 					let (key, b) = data::parse_string(b).ok_or(())?;
@@ -154,13 +158,13 @@ where
 					);
 					wr_enc
 						.send(
-							&mut pkt_buf_mini,
+							&mut reply_buf,
 							|buf| msg.serialize(buf).unwrap().0.len(),
 							&mut wr,
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
@@ -190,17 +194,21 @@ where
 						algorithm,
 						key_blob,
 					)
-					.unwrap_or_else(|| todo!());
+					.ok_or(())?;
 
-					Auth::PublicKey { algorithm, signature, key, message }
+					Some(Auth::PublicKey { algorithm, signature, key, message })
+				}
+				Method::Password { password } => Some(Auth::Password(password)),
+				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => {
+					None
 				}
-				Method::Password { password } => Auth::Password(password),
-				Method::PasswordRenew { .. } => todo!(),
-				Method::HostBased { .. } => todo!(),
-				Method::Other { .. } => todo!(),
 			};
 
-			match self.handlers.authenticate(ua.user, ua.service, auth).await {
+			let res = match auth {
+				Some(auth) => self.handlers.authenticate(ua.user, ua.service, auth).await,
+				None => Err(()),
+			};
+			match res {
 				Ok(user) => {
 					// Accept
 					let msg = Message::UserAuth(UserAuth::Success(Success));
@@ -212,7 +220,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					return Ok(Client {
 						read: RefCell::new((rd, rd_enc)),
 						write: LocalMutex::new((wr, wr_enc)),
@@ -234,7 +242,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 				}
 			}
 		}
-- 
2.43.0


From 67b9764d9bc2320fefd53176ba19a92e95ff998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:47 +0000
Subject: [PATCH 09/22] fix: do not panic on unexpected channel traffic,
 requests or I/O errors

An authenticated client could take down the server with e.g. a malformed or
unknown message, a message for a channel that isn't open, data without a running
program, a window adjustment or an unsupported request, or by running a program
that cannot be started or closes its stdin. Requests that cannot be satisfied
are now answered with a failure, protocol violations end the connection.
---
 nora_ssh/src/server.rs | 120 ++++++++++++++++++-----------------------
 1 file changed, 51 insertions(+), 69 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 9e1421d..586175f 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -304,7 +304,8 @@ where
 			channel: u32,
 		) -> (Io, [u8; 256], usize, u32) {
 			let mut buf = [0; 256];
-			let l = io.read(&mut buf).await.unwrap();
+			// Treat errors as end of file
+			let l = io.read(&mut buf).await.unwrap_or(0);
 			(io, buf, l, channel)
 		}
 		let mut buf = Vec::new();
@@ -368,7 +369,7 @@ where
 		let (rd, enc) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
-			match Message::parse(data).unwrap() {
+			match Message::parse(data).map_err(ReceiveError::Message)? {
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
@@ -390,31 +391,19 @@ where
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(r.recipient_channel).unwrap();
+					let ch = channels
+						.get_mut(r.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel(r.recipient_channel))?;
 					// TODO check if the channel is actually a session channel
-					let req = match SessionRequest::parse(r.ty, r.data) {
-						Err(_) => todo!(),
-						Ok(r) => r,
-					};
-					let (msg, stdout, stderr, wait) = match req {
-						SessionRequest::Shell => {
-							let io = server
+					let io = match SessionRequest::parse(r.ty, r.data) {
+						Ok(SessionRequest::Shell) => {
+							server
 								.handlers
 								.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
 								.await
-								.unwrap();
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
 						}
-						SessionRequest::Exec { command } => {
-							let io = server
+						Ok(SessionRequest::Exec { command }) => {
+							server
 								.handlers
 								.spawn(
 									&mut *self.user.borrow_mut(),
@@ -422,7 +411,12 @@ where
 									&[],
 								)
 								.await
-								.unwrap();
+						}
+						// Not supported (yet), unknown or malformed
+						Ok(_) | Err(_) => Err(()),
+					};
+					let (msg, stdout, stderr, wait) = match io {
+						Ok(io) => {
 							ch.stdin = io.stdin;
 							(
 								Message::Channel(msg::Channel::Success(msg::channel::Success {
@@ -433,7 +427,7 @@ where
 								Some(io.wait),
 							)
 						}
-						SessionRequest::Pty { .. } => (
+						Err(()) => (
 							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
 								recipient_channel: ch.peer_channel,
 							})),
@@ -441,21 +435,6 @@ where
 							None,
 							None,
 						),
-						SessionRequest::X11 { .. } => todo!(),
-						SessionRequest::Env { .. } => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
-						SessionRequest::Subsystem { .. } => todo!(),
-						SessionRequest::WindowChange { .. } => todo!(),
-						SessionRequest::XonXoff { .. } => todo!(),
-						SessionRequest::Signal { .. } => todo!(),
-						SessionRequest::ExitStatus { .. } => todo!(),
-						SessionRequest::ExitSignal { .. } => todo!(),
 					};
 					let channel = ch.peer_channel;
 					drop(channels);
@@ -464,53 +443,53 @@ where
 							.await
 							.map_err(ReceiveError::Out)?;
 					}
-					match (stdout, stderr) {
-						(None, None) => {}
-						(stdout, stderr) => {
-							return Ok(Action::NewIo {
-								stdout,
-								stderr,
-								wait: wait.unwrap(),
-								channel,
-							})
-						}
+					if let Some(wait) = wait {
+						return Ok(Action::NewIo { stdout, stderr, wait, channel });
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(d.recipient_channel).unwrap();
-					ch.stdin.as_mut().unwrap().write(d.data).await.unwrap();
+					let ch = channels
+						.get_mut(d.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel(d.recipient_channel))?;
+					// There is nothing to write to if the program did not start (yet) or
+					// doesn't have or closed its stdin
+					if let Some(stdin) = ch.stdin.as_mut() {
+						if stdin.write(d.data).await.is_err() {
+							ch.stdin = None;
+						}
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => todo!(),
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
 						.get_mut(e.recipient_channel)
-						.unwrap()
+						.ok_or(ReceiveError::UnknownChannel(e.recipient_channel))?
 						.stdin
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
-				Message::Channel(msg::Channel::OpenConfirmation(_)) => todo!(),
-				Message::Channel(msg::Channel::OpenFailure(_)) => todo!(),
-				Message::Channel(msg::Channel::WindowAdjust(_)) => todo!(),
-				Message::Channel(msg::Channel::Success(_)) => todo!(),
-				Message::Channel(msg::Channel::Failure(_)) => todo!(),
+				// TODO keep track of the window size
+				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
 				Message::Ignore(_) => {}
-				Message::Unimplemented(_) => todo!(),
-				Message::Debug(_) => todo!(),
-				Message::KeyExchangeInit(_) => todo!(),
-				Message::KeyExchangeEcdhInit(_) => todo!(),
-				Message::KeyExchangeEcdhReply(_) => todo!(),
-				Message::NewKeys(_) => todo!(),
-				Message::ServiceRequest(req) => {
-					todo!("{:?}", core::str::from_utf8(req.into()))
-				}
-				Message::ServiceAccept(_) => todo!(),
-				Message::UserAuth(_) => todo!(),
+				Message::Unimplemented(_) => {}
+				Message::Debug(_) => {}
+				// Either a violation of the protocol or not supported (yet)
+				Message::Channel(msg::Channel::ExtendedData(_))
+				| Message::Channel(msg::Channel::OpenConfirmation(_))
+				| Message::Channel(msg::Channel::OpenFailure(_))
+				| Message::Channel(msg::Channel::Success(_))
+				| Message::Channel(msg::Channel::Failure(_))
+				| Message::KeyExchangeInit(_)
+				| Message::KeyExchangeEcdhInit(_)
+				| Message::KeyExchangeEcdhReply(_)
+				| Message::NewKeys(_)
+				| Message::ServiceRequest(_)
+				| Message::ServiceAccept(_)
+				| Message::UserAuth(_) => return Err(ReceiveError::UnexpectedMessage),
 			}
 		}
 	}
@@ -566,6 +545,9 @@ pub enum ReceiveError {
 	In(InError),
 	Out(OutError),
 	Io(io::Error),
+	Message(msg::MessageParseError),
+	UnknownChannel(u32),
+	UnexpectedMessage,
 }
 
 #[cfg_attr(not(feature = "no_send"), async_trait::async_trait)]
-- 
2.43.0


From f862e1e388389165132c951c41c376df6700c4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:47 +0000
Subject: [PATCH 10/22] fix: write all channel data to the stdin of the program

A short write silently dropped the remainder.
---
 nora_ssh/src/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 586175f..4df2414 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -455,7 +455,7 @@ where
 					// There is nothing to write to if the program did not start (yet) or
 					// doesn't have or closed its stdin
 					if let Some(stdin) = ch.stdin.as_mut() {
-						if stdin.write(d.data).await.is_err() {
+						if stdin.write_all(d.data).await.is_err() {
 							ch.stdin = None;
 						}
 					}
-- 
2.43.0


From 3d42d32f0a121251ff02d4580cc820115920499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:47 +0000
Subject: [PATCH 11/22] fix: start at most one program per channel

RFC 4254 section 6.5. The output of a second program got mixed up with that of
the first one and the channel was closed twice.
---
 nora_ssh/src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 4df2414..cd600a4 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -375,6 +375,7 @@ where
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session, // TODO actually check
 						stdin: None,
+						started: false,
 					});
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
 						msg::channel::OpenConfirmation {
@@ -396,6 +397,8 @@ where
 						.ok_or(ReceiveError::UnknownChannel(r.recipient_channel))?;
 					// TODO check if the channel is actually a session channel
 					let io = match SessionRequest::parse(r.ty, r.data) {
+						// Only one program can be started per channel
+						_ if ch.started => Err(()),
 						Ok(SessionRequest::Shell) => {
 							server
 								.handlers
@@ -417,6 +420,7 @@ where
 					};
 					let (msg, stdout, stderr, wait) = match io {
 						Ok(io) => {
+							ch.started = true;
 							ch.stdin = io.stdin;
 							(
 								Message::Channel(msg::Channel::Success(msg::channel::Success {
@@ -517,6 +521,7 @@ where
 	#[allow(dead_code)]
 	ty: ChannelType,
 	stdin: Option<Stdin>,
+	started: bool,
 }
 
 pub struct IoSet<Stdin, Stdout, Stderr>
-- 
2.43.0


From e7c18fb9b50ac41697cae98ed180d792b84e36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 12/22] fix: do not drop receive and send operations in
 progress, keep streams in order

The receive future was recreated and dropped for every event of the select, which
lost the bytes of a partially received packet and could leave a partially written
reply behind. Output of a program was sent from within the select, so it could be
sent after the channel was closed, as could its exit status, and stderr was sent
as if it were stdout. Keep a single receive operation alive and forward each
program's output in a task of its own: all output, EOF, exit status, close.
---
 nora_ssh/src/server.rs | 158 +++++++++++++++++++++++------------------
 1 file changed, 89 insertions(+), 69 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index cd600a4..1db05a7 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -11,8 +11,8 @@ use elliptic_curve::{
 	Curve, Scalar,
 };
 use futures::{
-	io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt,
-	FutureExt, StreamExt,
+	future, io, pin_mut, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite,
+	AsyncWriteExt, FutureExt, StreamExt,
 };
 use generic_array::ArrayLength;
 use nora_ssh_core::{
@@ -24,6 +24,9 @@ use nora_ssh_core::{
 use rand::{CryptoRng, RngCore, SeedableRng};
 use subtle::CtOption;
 
+/// The type of extended data for stderr, see RFC 4254 section 5.2
+const SSH_EXTENDED_DATA_STDERR: u32 = 1;
+
 pub struct Server<Handlers>
 where
 	Handlers: ServerHandlers,
@@ -281,90 +284,107 @@ where
 		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
 	}
 
-	async fn send_channel(
-		&self,
-		buf: &mut [u8],
-		channel: u32,
-		data: &[u8],
-	) -> Result<(), OutError> {
-		let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
-			recipient_channel: channel,
-			data,
-		}));
-		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+	async fn send_channel(&self, msg: msg::Channel<'_>) -> Result<(), ReceiveError> {
+		let mut buf = [0; 512];
+		let msg = Message::Channel(msg);
+		self.send(&mut buf, |buf| msg.serialize(buf).unwrap().0.len())
 			.await
+			.map_err(ReceiveError::Out)
 	}
 
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
-		let mut stdout_inputs = FuturesUnordered::new();
-		let mut stderr_inputs = FuturesUnordered::new();
-		let mut wait_exit = FuturesUnordered::new();
-		async fn read<Io: AsyncRead + Unpin>(
-			mut io: Io,
-			channel: u32,
-		) -> (Io, [u8; 256], usize, u32) {
-			let mut buf = [0; 256];
-			// Treat errors as end of file
-			let l = io.read(&mut buf).await.unwrap_or(0);
-			(io, buf, l, channel)
-		}
-		let mut buf = Vec::new();
-		buf.resize(35000, 0);
+		let mut programs = FuturesUnordered::new();
+		// Neither of these may be dropped while in progress: that would lose data already
+		// read or leave a partially written packet behind.
+		let receive = self.receive(server).fuse();
+		pin_mut!(receive);
 		loop {
 			select! {
-				ret = self.receive(&mut buf, server).fuse() => match ret {
-					Ok(Action::Exit) => return Ok(()),
-					Ok(Action::NewIo { stdout, stderr, wait, channel }) => {
-						if let Some(stdout) = stdout {
-							stdout_inputs.push(read(stdout, channel));
+				ret = receive => {
+					match ret? {
+						Action::Exit => return Ok(()),
+						Action::NewIo { stdout, stderr, wait, channel } => {
+							programs.push(self.forward_program(stdout, stderr, wait, channel));
 						}
-						if let Some(stderr) = stderr {
-							stderr_inputs.push(read(stderr, channel));
-						}
-						wait_exit.push(async move { (wait.await, channel) });
-					}
-					Err(e) => return Err(e),
-				},
-				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
-					if l > 0 {
-						stdout_inputs.push(read(stdout, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					} else {
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Eof(msg::channel::Eof {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-					}
-				},
-				(stderr, data, l, channel) = stderr_inputs.select_next_some() => {
-					if l > 0 {
-						stderr_inputs.push(read(stderr, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
 					}
+					receive.set(self.receive(server).fuse());
 				},
-				(status, channel) = wait_exit.select_next_some() => {
-					let mut data = [0; 256];
-					let (ty, l) = SessionRequest::ExitStatus {
-						status,
-					}.serialize(&mut data).unwrap();
-					self.send(&mut buf, |buf| Message::Channel(msg::Channel::Request(msg::channel::Request {
-						recipient_channel: channel,
-						ty,
-						data: &data[..l],
-						want_reply: false,
-					})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-				}
+				ret = programs.select_next_some() => ret?,
 			}
 		}
 	}
 
+	/// Send all output of a program followed by its exit status and close the channel.
+	async fn forward_program(
+		&self,
+		stdout: Option<Handlers::Stdout>,
+		stderr: Option<Handlers::Stderr>,
+		wait: Pin<Box<dyn Future<Output = u32>>>,
+		channel: u32,
+	) -> Result<(), ReceiveError> {
+		future::try_join(
+			self.forward_output(stdout, channel, None),
+			self.forward_output(stderr, channel, Some(SSH_EXTENDED_DATA_STDERR)),
+		)
+		.await?;
+		self.send_channel(msg::Channel::Eof(msg::channel::Eof {
+			recipient_channel: channel,
+		}))
+		.await?;
+		let status = wait.await;
+		let mut data = [0; 256];
+		let (ty, l) = SessionRequest::ExitStatus { status }
+			.serialize(&mut data)
+			.unwrap();
+		self.send_channel(msg::Channel::Request(msg::channel::Request {
+			recipient_channel: channel,
+			ty,
+			data: &data[..l],
+			want_reply: false,
+		}))
+		.await?;
+		self.send_channel(msg::Channel::Close(msg::channel::Close {
+			recipient_channel: channel,
+		}))
+		.await
+	}
+
+	async fn forward_output<Io: AsyncRead + Unpin>(
+		&self,
+		io: Option<Io>,
+		channel: u32,
+		extended: Option<u32>,
+	) -> Result<(), ReceiveError> {
+		let mut io = match io {
+			Some(io) => io,
+			None => return Ok(()),
+		};
+		let mut buf = [0; 256];
+		loop {
+			// Treat errors as end of file
+			let data = match io.read(&mut buf).await {
+				Ok(0) | Err(_) => return Ok(()),
+				Ok(l) => &buf[..l],
+			};
+			self.send_channel(match extended {
+				None => msg::Channel::Data(msg::channel::Data { recipient_channel: channel, data }),
+				Some(ty) => msg::Channel::ExtendedData(msg::channel::ExtendedData {
+					recipient_channel: channel,
+					ty,
+					data,
+				}),
+			})
+			.await?;
+		}
+	}
+
 	async fn receive(
 		&self,
-		buf: &mut [u8],
 		server: &Server<Handlers>,
 	) -> Result<Action<Handlers::Stdout, Handlers::Stderr>, ReceiveError> {
+		let mut buf = Vec::new();
+		buf.resize(35000, 0);
+		let buf = &mut buf[..];
 		let mut read = self.read.borrow_mut();
 		let (rd, enc) = &mut *read;
 		loop {
-- 
2.43.0


From b90936d48331c0b15149e44d2f6ac9f8c9e2c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 13/22] fix: reject logins and programs the example server
 cannot handle instead of panicking

A password, a user name that isn't UTF-8, an empty command or one that cannot be
run each took down the server.
---
 nora_sshd/src/main.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3591409..df16e70 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -77,9 +77,8 @@ impl ServerHandlers for Handlers {
 	) -> Result<Self::User, ()> {
 		match auth {
 			Auth::None => Err(()),
-			Auth::Password(_pwd) => {
-				todo!()
-			}
+			// TODO support passwords
+			Auth::Password(_pwd) => Err(()),
 			Auth::PublicKey { algorithm, key, signature, message } => {
 				if algorithm != b"ssh-ed25519" {
 					return Err(());
@@ -90,7 +89,7 @@ impl ServerHandlers for Handlers {
 					.map_err(|_| ())?;
 				key.verify(message, &signature.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
-				Ok(User { _name: core::str::from_utf8(user).unwrap().into(), shell: None })
+				Ok(User { _name: core::str::from_utf8(user).map_err(|_| ())?.into(), shell: None })
 			}
 		}
 	}
@@ -107,13 +106,13 @@ impl ServerHandlers for Handlers {
 		};
 		match ty {
 			SpawnType::Shell => {
-				let shell = std::env::var_os("SHELL").unwrap();
+				let shell = std::env::var_os("SHELL").ok_or(())?;
 				let mut shell = process::Command::new(shell)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
@@ -128,14 +127,14 @@ impl ServerHandlers for Handlers {
 					.split(|c| c.is_ascii_whitespace())
 					.filter(|s| !s.is_empty())
 					.map(std::ffi::OsStr::from_bytes);
-				let bin = args.next().unwrap();
+				let bin = args.next().ok_or(())?;
 				let mut shell = process::Command::new(bin)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.args(args)
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
-- 
2.43.0


From 22d7165ae41f9f3f14a6d33c30788210e0f0076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 14/22] fix: do not report programs killed by a signal as
 successful

---
 nora_sshd/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index df16e70..cfadc32 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -12,7 +12,7 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::os::unix::ffi::OsStrExt;
+use std::os::unix::{ffi::OsStrExt, process::ExitStatusExt};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -102,7 +102,16 @@ impl ServerHandlers for Handlers {
 	) -> Result<IoSet<Self::Stdin, Self::Stdout, Self::Stderr>, ()> {
 		let wait = |child: &mut process::Child| {
 			let wait = child.status();
-			async move { wait.await.unwrap().code().unwrap_or(0) as u32 }
+			async move {
+				match wait.await {
+					Ok(status) => match status.code() {
+						Some(code) => code as u32,
+						// Use the convention of shells for programs killed by a signal
+						None => 128 + status.signal().unwrap_or(0) as u32,
+					},
+					Err(_) => 255,
+				}
+			}
 		};
 		match ty {
 			SpawnType::Shell => {
-- 
2.43.0


From 35901988a8356830c5e01bf1c0cbfda4b548f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 15/22] fix: do not let the sender write outside the
 destination directory

File names like ../x or /x were passed on to File::create as is.
---
 nora_scp/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b8bf41e..8f552e8 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -134,6 +134,10 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 		while let Some((ty, _mode, size, file)) = read_header(&stdin, &mut header)? {
 			match ty {
 				Type::File => {
+					// Don't let the sender pick a file outside the directory.
+					if file.is_empty() || file == "." || file == ".." || file.contains('/') {
+						Err(format!("invalid file name {:?}", file))?;
+					}
 					let f = File::create(file)?;
 					ping_ready()?;
 					transfer_file(f, size)?;
-- 
2.43.0


From b1380895315f4463e679f1ed596cc7cbcd273600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 16/22] fix: parse scp headers with spaces in the file name,
 reject truncated ones

Everything behind the first space of a file name was dropped, a header cut off
in the file name was accepted, and unsupported modes panicked.
---
 nora_scp/src/main.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 8f552e8..a3bb16d 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -59,7 +59,7 @@ fn start() -> Result<(), Box<dyn Error>> {
 	match mode {
 		Mode::Receive => receive(&paths, make_dir),
 		Mode::Send => send(&paths),
-		Mode::Client => todo!(),
+		Mode::Client => Err("client mode is not supported")?,
 	}
 }
 
@@ -90,18 +90,16 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				stdin.borrow_mut().read_until(b'\n', header)?;
 				// TODO try to support non-UTF8 when possible.
 				let header = str::from_utf8(header)?;
-				let mut parts = header.split(' ');
+				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
-				let mut file = parts.next().ok_or("missing file")?;
-				if file.bytes().last() == Some(b'\n') {
-					file = &file[..file.len() - 1];
-				}
+				let file = parts.next().ok_or("missing file")?;
+				let file = file.strip_suffix('\n').ok_or("truncated header")?;
 				// TODO check for garbage
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
 			}
-			(_, b'D') => todo!(),
+			(_, b'D') => Err("directories are not supported")?,
 			c => Err(format!("invalid mode {:?}", c))?,
 		}
 	}
-- 
2.43.0


From 272fe4528c9aec2415aa9f05e1804aae47310922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 17/22] fix: exit with a non-zero status if scp failed

---
 nora_scp/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index a3bb16d..fa35fc8 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -28,11 +28,14 @@ use std::{
 fn main() {
 	match start() {
 		Ok(()) => {}
-		Err(e) => eprintln!(
-			"{} failed: {}",
-			std::env::args().next().as_deref().unwrap_or("scp"),
-			e
-		),
+		Err(e) => {
+			eprintln!(
+				"{} failed: {}",
+				std::env::args().next().as_deref().unwrap_or("scp"),
+				e
+			);
+			std::process::exit(1);
+		}
 	}
 }
 
-- 
2.43.0


From c7eb53bf3468e745936d41a83da35eb751b5630f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:03 +0000
Subject: [PATCH 18/22] fix: send the real size of files and follow the scp
 protocol when sending

The size in the header was always 42, acknowledgements were not awaited and the
terminating zero byte was missing.
---
 nora_scp/src/main.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index fa35fc8..aae526e 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -167,23 +167,40 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 }
 
 fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
+	let mut stdin = io::stdin().lock();
+	let mut out = io::stdout().lock();
+	let mut wait_ready = || -> Result<_, Box<dyn Error>> {
+		let mut ack = [0];
+		stdin.read_exact(&mut ack)?;
+		if ack[0] != b'\0' {
+			Err("expected '\\0'")?;
+		}
+		Ok(())
+	};
+
 	let mut buf = [0; 1 << 15];
+	wait_ready()?;
 	for path in from {
 		let mut f = File::open(path)?;
 		// TODO try to support non-UTF8 when possible.
 		let name = path
 			.file_name()
-			.unwrap()
+			.ok_or("path has no file name")?
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
-		println!("C{:04o} {} {}", 0o644, 42, name);
-		let mut out = io::stdout().lock();
-		loop {
-			match f.read(&mut buf)? {
-				0 => break,
-				n => out.write_all(&buf[..n])?,
-			}
+		let mut size = usize::try_from(f.metadata()?.len())?;
+		writeln!(out, "C{:04o} {} {}", 0o644, size, name)?;
+		out.flush()?;
+		wait_ready()?;
+		while size > 0 {
+			let l = size.min(buf.len());
+			f.read_exact(&mut buf[..l])?;
+			out.write_all(&buf[..l])?;
+			size -= l;
 		}
+		out.write_all(b"\0")?;
+		out.flush()?;
+		wait_ready()?;
 	}
 	Ok(())
 }
-- 
2.43.0


From 0e91d01c81d187051d6ba9a9ec2a5ddb20f7deef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:40 +0000
Subject: [PATCH 19/22] fix: nora_sshd: survive failing accepts

An error returned by accept() (e.g. a lack of file descriptors, or a client
that reset its connection while it was waiting) panicked the server and took
all established connections down.
---
 nora_sshd/src/main.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index cfadc32..b57143c 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -2,7 +2,7 @@
 
 use async_std::{
 	net::{TcpListener, TcpStream},
-	process,
+	process, task,
 };
 use futures::io::{AsyncReadExt, ReadHalf, WriteHalf};
 use nora_ssh::{
@@ -12,7 +12,10 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::os::unix::{ffi::OsStrExt, process::ExitStatusExt};
+use std::{
+	os::unix::{ffi::OsStrExt, process::ExitStatusExt},
+	time::Duration,
+};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -52,7 +55,14 @@ impl ServerHandlers for Handlers {
 	type Rng = StdRng;
 
 	async fn accept(&self) -> (Self::Read, Self::Write) {
-		self.listener.accept().await.unwrap().0.split()
+		loop {
+			match self.listener.accept().await {
+				Ok((stream, _)) => return stream.split(),
+				// A client that is already gone or a lack of resources (e.g. file descriptors)
+				// must not affect the other clients, so try again a bit later.
+				Err(_) => task::sleep(Duration::from_millis(100)).await,
+			}
+		}
 	}
 
 	async fn public_key_exists<'a>(
-- 
2.43.0


From 0ce2a605cc09df7d26ebe5a0f2263f3205c1deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:49 +0000
Subject: [PATCH 20/22] fix: server: refuse channels of other types than
 session

Every CHANNEL_OPEN was confirmed as if it was a session, so a client asking for
e.g. a forwarded connection believed that it got one.
---
 nora_ssh/src/server.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 1db05a7..b50f2d8 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -390,10 +390,19 @@ where
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
 			match Message::parse(data).map_err(ReceiveError::Message)? {
+				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
+					self.send_channel(msg::Channel::OpenFailure(msg::channel::OpenFailure {
+						recipient_channel: o.sender_channel,
+						reason: msg::channel::OpenFailureReason::UnknownChannelType,
+						description: "",
+						language: b"",
+					}))
+					.await?;
+				}
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
-						ty: ChannelType::Session, // TODO actually check
+						ty: ChannelType::Session,
 						stdin: None,
 						started: false,
 					});
@@ -415,7 +424,6 @@ where
 					let ch = channels
 						.get_mut(r.recipient_channel)
 						.ok_or(ReceiveError::UnknownChannel(r.recipient_channel))?;
-					// TODO check if the channel is actually a session channel
 					let io = match SessionRequest::parse(r.ty, r.data) {
 						// Only one program can be started per channel
 						_ if ch.started => Err(()),
-- 
2.43.0


From 6881b014f8e93bbea6a524eb49f52f881514c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:31 +0000
Subject: [PATCH 21/22] fix: server: answer the close of a channel without
 program

RFC 4254 section 5.3 requires a CLOSE to be answered with a CLOSE. Only channels
on which a program had been started got one, the others stayed half open.
---
 nora_ssh/src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index b50f2d8..43576c1 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -501,7 +501,14 @@ where
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
-					self.channels.borrow_mut().remove(c.recipient_channel);
+					let ch = self.channels.borrow_mut().remove(c.recipient_channel);
+					// Channels with a program are closed after all of its output has been sent
+					if let Some(Channel { peer_channel, started: false, .. }) = ch {
+						self.send_channel(msg::Channel::Close(msg::channel::Close {
+							recipient_channel: peer_channel,
+						}))
+						.await?;
+					}
 				}
 				// TODO keep track of the window size
 				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
-- 
2.43.0


From 6fe0e500ce93a304a2d072a3300a4b6450c35d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:26 +0000
Subject: [PATCH 22/22] fix: server: don't invite messages that don't fit the
 receive buffer

The maximum packet size of the client was echoed. Clients which allow large
packets hence sent packets that exceed the receive buffer, which ended the
connection.
---
 nora_ssh/src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 43576c1..2ef74dd 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -26,6 +26,8 @@ use subtle::CtOption;
 
 /// The type of extended data for stderr, see RFC 4254 section 5.2
 const SSH_EXTENDED_DATA_STDERR: u32 = 1;
+/// The maximum amount of data a client may put in one message. It must fit in the receive buffer
+const MAX_DATA_SIZE: u32 = 32768;
 
 pub struct Server<Handlers>
 where
@@ -411,7 +413,7 @@ where
 							sender_channel: ch,
 							recipient_channel: o.sender_channel,
 							window_size: o.window_size,
-							max_packet_size: o.max_packet_size,
+							max_packet_size: o.max_packet_size.min(MAX_DATA_SIZE),
 							data: &[],
 						},
 					));
-- 
2.43.0

