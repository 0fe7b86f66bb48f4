From 920db610f5c9d5cc35d1f5aa9994b0117c1f80de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:17 +0000
Subject: [PATCH 01/32] fix: MODEXP base lengths near 2**256 run out of gas
 instead of crashing

---
 src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py | 4 +++-
 src/ethereum/berlin/vm/precompiled_contracts/modexp.py        | 4 +++-
 src/ethereum/byzantium/vm/precompiled_contracts/modexp.py     | 4 +++-
 src/ethereum/cancun/vm/precompiled_contracts/modexp.py        | 4 +++-
 .../constantinople/vm/precompiled_contracts/modexp.py         | 4 +++-
 src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py  | 4 +++-
 src/ethereum/istanbul/vm/precompiled_contracts/modexp.py      | 4 +++-
 src/ethereum/london/vm/precompiled_contracts/modexp.py        | 4 +++-
 src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py  | 4 +++-
 src/ethereum/paris/vm/precompiled_contracts/modexp.py         | 4 +++-
 src/ethereum/prague/vm/precompiled_contracts/modexp.py        | 4 +++-
 src/ethereum/shanghai/vm/precompiled_contracts/modexp.py      | 4 +++-
 12 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..ba7dad3 100644
--- a/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/arrow_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
index 790d2fd..ba7dad3 100644
--- a/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/berlin/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
index c5956d4..bd31b69 100644
--- a/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/byzantium/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
index 790d2fd..ba7dad3 100644
--- a/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/cancun/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
index c5956d4..bd31b69 100644
--- a/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/constantinople/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
index 790d2fd..ba7dad3 100644
--- a/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/gray_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
index c5956d4..bd31b69 100644
--- a/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/istanbul/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/london/vm/precompiled_contracts/modexp.py b/src/ethereum/london/vm/precompiled_contracts/modexp.py
index 790d2fd..ba7dad3 100644
--- a/src/ethereum/london/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/london/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
index c5956d4..bd31b69 100644
--- a/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/muir_glacier/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/paris/vm/precompiled_contracts/modexp.py b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
index 790d2fd..ba7dad3 100644
--- a/src/ethereum/paris/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/paris/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/prague/vm/precompiled_contracts/modexp.py b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
index 790d2fd..ba7dad3 100644
--- a/src/ethereum/prague/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/prague/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
diff --git a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
index 790d2fd..ba7dad3 100644
--- a/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
+++ b/src/ethereum/shanghai/vm/precompiled_contracts/modexp.py
@@ -33,7 +33,9 @@ def modexp(evm: Evm) -> None:
     exp_length = U256.from_be_bytes(buffer_read(data, U256(32), U256(32)))
     modulus_length = U256.from_be_bytes(buffer_read(data, U256(64), U256(32)))
 
-    exp_start = U256(96) + base_length
+    exp_start = U256(
+        min(Uint(96) + Uint(base_length), Uint(U256.MAX_VALUE))
+    )
 
     exp_head = U256.from_be_bytes(
         buffer_read(data, exp_start, min(U256(32), exp_length))
-- 
2.43.0


From 300705a4cbe1e2d253aa89f2060b1893cf928b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:28 +0000
Subject: [PATCH 02/32] fix: reject typed transactions bound to another chain
 id

---
 src/ethereum/arrow_glacier/transactions.py | 2 ++
 src/ethereum/berlin/transactions.py        | 2 ++
 src/ethereum/cancun/transactions.py        | 2 ++
 src/ethereum/gray_glacier/transactions.py  | 2 ++
 src/ethereum/london/transactions.py        | 2 ++
 src/ethereum/osaka/transactions.py         | 2 ++
 src/ethereum/paris/transactions.py         | 2 ++
 src/ethereum/prague/transactions.py        | 2 ++
 src/ethereum/shanghai/transactions.py      | 2 ++
 9 files changed, 18 insertions(+)

diff --git a/src/ethereum/arrow_glacier/transactions.py b/src/ethereum/arrow_glacier/transactions.py
index 751ed8f..f88e33f 100644
--- a/src/ethereum/arrow_glacier/transactions.py
+++ b/src/ethereum/arrow_glacier/transactions.py
@@ -420,6 +420,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/berlin/transactions.py b/src/ethereum/berlin/transactions.py
index 4832858..a51f1bd 100644
--- a/src/ethereum/berlin/transactions.py
+++ b/src/ethereum/berlin/transactions.py
@@ -337,6 +337,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/cancun/transactions.py b/src/ethereum/cancun/transactions.py
index 98a82bd..aa39a68 100644
--- a/src/ethereum/cancun/transactions.py
+++ b/src/ethereum/cancun/transactions.py
@@ -533,6 +533,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/gray_glacier/transactions.py b/src/ethereum/gray_glacier/transactions.py
index 751ed8f..f88e33f 100644
--- a/src/ethereum/gray_glacier/transactions.py
+++ b/src/ethereum/gray_glacier/transactions.py
@@ -420,6 +420,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/london/transactions.py b/src/ethereum/london/transactions.py
index 751ed8f..f88e33f 100644
--- a/src/ethereum/london/transactions.py
+++ b/src/ethereum/london/transactions.py
@@ -420,6 +420,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/osaka/transactions.py b/src/ethereum/osaka/transactions.py
index 90b1dee..2619b72 100644
--- a/src/ethereum/osaka/transactions.py
+++ b/src/ethereum/osaka/transactions.py
@@ -665,6 +665,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/paris/transactions.py b/src/ethereum/paris/transactions.py
index 751ed8f..f88e33f 100644
--- a/src/ethereum/paris/transactions.py
+++ b/src/ethereum/paris/transactions.py
@@ -420,6 +420,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/prague/transactions.py b/src/ethereum/prague/transactions.py
index b4023f1..c5e727c 100644
--- a/src/ethereum/prague/transactions.py
+++ b/src/ethereum/prague/transactions.py
@@ -657,6 +657,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
diff --git a/src/ethereum/shanghai/transactions.py b/src/ethereum/shanghai/transactions.py
index 1dff83b..68eac0e 100644
--- a/src/ethereum/shanghai/transactions.py
+++ b/src/ethereum/shanghai/transactions.py
@@ -432,6 +432,8 @@ def recover_sender(chain_id: U64, tx: Transaction) -> Address:
         raise InvalidSignatureError("bad r")
     if U256(0) >= s or s > SECP256K1N // U256(2):
         raise InvalidSignatureError("bad s")
+    if not isinstance(tx, LegacyTransaction) and tx.chain_id != chain_id:
+        raise InvalidSignatureError("bad chain id")
 
     if isinstance(tx, LegacyTransaction):
         v = tx.v
-- 
2.43.0


From 323af4cf20ab2655f1c057cf34c629f994d772d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:50 +0000
Subject: [PATCH 03/32] fix: refuse proof-of-work era blocks whose parent is
 not the chain's head

---
 src/ethereum/arrow_glacier/fork.py     | 2 ++
 src/ethereum/berlin/fork.py            | 2 ++
 src/ethereum/byzantium/fork.py         | 2 ++
 src/ethereum/constantinople/fork.py    | 2 ++
 src/ethereum/dao_fork/fork.py          | 2 ++
 src/ethereum/frontier/fork.py          | 2 ++
 src/ethereum/gray_glacier/fork.py      | 2 ++
 src/ethereum/homestead/fork.py         | 2 ++
 src/ethereum/istanbul/fork.py          | 2 ++
 src/ethereum/london/fork.py            | 2 ++
 src/ethereum/muir_glacier/fork.py      | 2 ++
 src/ethereum/spurious_dragon/fork.py   | 2 ++
 src/ethereum/tangerine_whistle/fork.py | 2 ++
 13 files changed, 26 insertions(+)

diff --git a/src/ethereum/arrow_glacier/fork.py b/src/ethereum/arrow_glacier/fork.py
index ef4669a..b50ccca 100644
--- a/src/ethereum/arrow_glacier/fork.py
+++ b/src/ethereum/arrow_glacier/fork.py
@@ -170,6 +170,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/berlin/fork.py b/src/ethereum/berlin/fork.py
index a2b59a5..9dda415 100644
--- a/src/ethereum/berlin/fork.py
+++ b/src/ethereum/berlin/fork.py
@@ -162,6 +162,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/byzantium/fork.py b/src/ethereum/byzantium/fork.py
index 71b6ff1..83e2e7a 100644
--- a/src/ethereum/byzantium/fork.py
+++ b/src/ethereum/byzantium/fork.py
@@ -157,6 +157,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/constantinople/fork.py b/src/ethereum/constantinople/fork.py
index 404ff57..03309c4 100644
--- a/src/ethereum/constantinople/fork.py
+++ b/src/ethereum/constantinople/fork.py
@@ -157,6 +157,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/dao_fork/fork.py b/src/ethereum/dao_fork/fork.py
index 4b8fcf8..935e50a 100644
--- a/src/ethereum/dao_fork/fork.py
+++ b/src/ethereum/dao_fork/fork.py
@@ -164,6 +164,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 95407d2..0a28982 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -154,6 +154,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/gray_glacier/fork.py b/src/ethereum/gray_glacier/fork.py
index 479d457..7e4d1fe 100644
--- a/src/ethereum/gray_glacier/fork.py
+++ b/src/ethereum/gray_glacier/fork.py
@@ -170,6 +170,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/homestead/fork.py b/src/ethereum/homestead/fork.py
index 088e418..63aa14e 100644
--- a/src/ethereum/homestead/fork.py
+++ b/src/ethereum/homestead/fork.py
@@ -154,6 +154,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/istanbul/fork.py b/src/ethereum/istanbul/fork.py
index 404ff57..03309c4 100644
--- a/src/ethereum/istanbul/fork.py
+++ b/src/ethereum/istanbul/fork.py
@@ -157,6 +157,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index 0d2c06f..c572ee9 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -171,6 +171,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/muir_glacier/fork.py b/src/ethereum/muir_glacier/fork.py
index 39e6e1f..dcd2463 100644
--- a/src/ethereum/muir_glacier/fork.py
+++ b/src/ethereum/muir_glacier/fork.py
@@ -157,6 +157,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/spurious_dragon/fork.py b/src/ethereum/spurious_dragon/fork.py
index e3652c9..5227124 100644
--- a/src/ethereum/spurious_dragon/fork.py
+++ b/src/ethereum/spurious_dragon/fork.py
@@ -155,6 +155,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
diff --git a/src/ethereum/tangerine_whistle/fork.py b/src/ethereum/tangerine_whistle/fork.py
index 2489eb6..b5e9c09 100644
--- a/src/ethereum/tangerine_whistle/fork.py
+++ b/src/ethereum/tangerine_whistle/fork.py
@@ -153,6 +153,8 @@ def state_transition(chain: BlockChain, block: Block) -> None:
     block :
         Block to apply to `chain`.
     """
+    if block.header.number != chain.blocks[-1].header.number + Uint(1):
+        raise InvalidBlock
     validate_header(chain, block.header)
     validate_ommers(block.ommers, block.header, chain)
 
-- 
2.43.0


From c19268e2f8904dd8304dcf7a0ba19a195ce9a6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:50 +0000
Subject: [PATCH 04/32] fix: an empty transaction in a block is invalid, not an
 internal error

---
 src/ethereum/arrow_glacier/transactions.py | 3 +++
 src/ethereum/berlin/transactions.py        | 3 +++
 src/ethereum/cancun/transactions.py        | 3 +++
 src/ethereum/gray_glacier/transactions.py  | 3 +++
 src/ethereum/london/transactions.py        | 3 +++
 src/ethereum/osaka/transactions.py         | 3 +++
 src/ethereum/paris/transactions.py         | 3 +++
 src/ethereum/prague/transactions.py        | 3 +++
 src/ethereum/shanghai/transactions.py      | 3 +++
 9 files changed, 27 insertions(+)

diff --git a/src/ethereum/arrow_glacier/transactions.py b/src/ethereum/arrow_glacier/transactions.py
index f88e33f..330e346 100644
--- a/src/ethereum/arrow_glacier/transactions.py
+++ b/src/ethereum/arrow_glacier/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/berlin/transactions.py b/src/ethereum/berlin/transactions.py
index a51f1bd..5dc0db7 100644
--- a/src/ethereum/berlin/transactions.py
+++ b/src/ethereum/berlin/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -234,6 +235,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] != 1:
             raise TransactionTypeError(tx[0])
         return rlp.decode_to(AccessListTransaction, tx[1:])
diff --git a/src/ethereum/cancun/transactions.py b/src/ethereum/cancun/transactions.py
index aa39a68..44b8596 100644
--- a/src/ethereum/cancun/transactions.py
+++ b/src/ethereum/cancun/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -411,6 +412,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/gray_glacier/transactions.py b/src/ethereum/gray_glacier/transactions.py
index f88e33f..330e346 100644
--- a/src/ethereum/gray_glacier/transactions.py
+++ b/src/ethereum/gray_glacier/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/london/transactions.py b/src/ethereum/london/transactions.py
index f88e33f..330e346 100644
--- a/src/ethereum/london/transactions.py
+++ b/src/ethereum/london/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/osaka/transactions.py b/src/ethereum/osaka/transactions.py
index 2619b72..0ef6c2d 100644
--- a/src/ethereum/osaka/transactions.py
+++ b/src/ethereum/osaka/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -510,6 +511,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/paris/transactions.py b/src/ethereum/paris/transactions.py
index f88e33f..330e346 100644
--- a/src/ethereum/paris/transactions.py
+++ b/src/ethereum/paris/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/prague/transactions.py b/src/ethereum/prague/transactions.py
index c5e727c..e29c3d5 100644
--- a/src/ethereum/prague/transactions.py
+++ b/src/ethereum/prague/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -504,6 +505,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
diff --git a/src/ethereum/shanghai/transactions.py b/src/ethereum/shanghai/transactions.py
index 68eac0e..93675a8 100644
--- a/src/ethereum/shanghai/transactions.py
+++ b/src/ethereum/shanghai/transactions.py
@@ -16,6 +16,7 @@ from ethereum.crypto.hash import Hash32, keccak256
 from ethereum.exceptions import (
     InsufficientTransactionGasError,
     InvalidSignatureError,
+    InvalidTransaction,
     NonceOverflowError,
 )
 
@@ -314,6 +315,8 @@ def decode_transaction(tx: LegacyTransaction | Bytes) -> Transaction:
     are decoded based on their type identifier prefix.
     """
     if isinstance(tx, Bytes):
+        if len(tx) == 0:
+            raise InvalidTransaction("empty transaction")
         if tx[0] == 1:
             return rlp.decode_to(AccessListTransaction, tx[1:])
         elif tx[0] == 2:
-- 
2.43.0


From 1330ee35b464ab399e81a832bbd0b15b23d9b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 05/32] fix: rolling back a repeated storage destruction
 restores the writes in between

---
 src/ethereum_optimized/state_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum_optimized/state_db.py b/src/ethereum_optimized/state_db.py
index b0ea25f..50dbb1b 100644
--- a/src/ethereum_optimized/state_db.py
+++ b/src/ethereum_optimized/state_db.py
@@ -294,8 +294,8 @@ def get_optimized_state_patches(fork: str) -> Dict[str, Any]:
             elif type(item[1]) is dict:
                 # Restore storage that was destroyed by `destroy_storage()`
                 state.destroyed_accounts[item[0]] -= Uint(1)
+                state.dirty_storage[item[0]] = item[1]
                 if state.destroyed_accounts[item[0]] == 0:
-                    state.dirty_storage[item[0]] = item[1]
                     del state.destroyed_accounts[item[0]]
             else:
                 # Revert a change to an account
-- 
2.43.0


From a50b884c99f779ab7d997ef61a5c86000783a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 06/32] fix: t8n pays ommer rewards from the fields its
 environment has

---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 2fad681..f3c09e9 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -218,12 +218,12 @@ class T8N(Load):
 
         for ommer in self.env.ommers:
             # Ommer age with respect to the current block.
-            ommer_age = U256(block_env.number - ommer.number)
+            ommer_age = parse_hex_or_int(ommer.delta, U256)
             ommer_miner_reward = (
                 (U256(8) - ommer_age) * block_reward
             ) // U256(8)
             self.fork.create_ether(
-                block_env.state, ommer.coinbase, ommer_miner_reward
+                block_env.state, ommer.address, ommer_miner_reward
             )
 
     def run_state_test(self) -> Any:
-- 
2.43.0


From d7b3f925695fe51767549d076bb2715d73b7c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:58 +0000
Subject: [PATCH 07/32] fix: the first London block obeys the gas limit rule

---
 src/ethereum/london/fork.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ethereum/london/fork.py b/src/ethereum/london/fork.py
index c572ee9..13c4596 100644
--- a/src/ethereum/london/fork.py
+++ b/src/ethereum/london/fork.py
@@ -318,7 +318,13 @@ def validate_header(chain: BlockChain, header: Header) -> None:
         raise InvalidBlock
 
     expected_base_fee_per_gas = INITIAL_BASE_FEE
-    if header.number != FORK_CRITERIA.block_number:
+    if header.number == FORK_CRITERIA.block_number:
+        # The gas target of the first block is the gas limit of its parent.
+        if not check_gas_limit(
+            header.gas_limit, parent_header.gas_limit * ELASTICITY_MULTIPLIER
+        ):
+            raise InvalidBlock
+    else:
         # For every block except the first, calculate the base fee per gas
         # based on the parent block.
         expected_base_fee_per_gas = calculate_base_fee_per_gas(
-- 
2.43.0


From 7ac0f942a09f392968954d53ac4f421531be73a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:58 +0000
Subject: [PATCH 08/32] fix: excess blob gas carries over from the last block
 of the previous fork

---
 src/ethereum/osaka/vm/gas.py  | 7 ++++---
 src/ethereum/prague/vm/gas.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ethereum/osaka/vm/gas.py b/src/ethereum/osaka/vm/gas.py
index deb0371..ede77ff 100644
--- a/src/ethereum/osaka/vm/gas.py
+++ b/src/ethereum/osaka/vm/gas.py
@@ -16,6 +16,7 @@ from typing import List, Tuple
 
 from ethereum_types.numeric import U64, U256, Uint
 
+from ethereum.prague.blocks import Header as PreviousHeader
 from ethereum.trace import GasAndRefund, evm_trace
 from ethereum.utils.numeric import ceil32, taylor_exponential
 
@@ -296,13 +297,13 @@ def calculate_excess_blob_gas(parent_header: Header) -> U64:
     excess_blob_gas: `ethereum.base_types.U64`
         The excess blob gas for the current block.
     """
-    # At the fork block, these are defined as zero.
+    # Before blobs were introduced, these are defined as zero.
     excess_blob_gas = U64(0)
     blob_gas_used = U64(0)
     base_fee_per_gas = Uint(0)
 
-    if isinstance(parent_header, Header):
-        # After the fork block, read them from the parent header.
+    if isinstance(parent_header, (Header, PreviousHeader)):
+        # The parent of the fork block belongs to the previous fork.
         excess_blob_gas = parent_header.excess_blob_gas
         blob_gas_used = parent_header.blob_gas_used
         base_fee_per_gas = parent_header.base_fee_per_gas
diff --git a/src/ethereum/prague/vm/gas.py b/src/ethereum/prague/vm/gas.py
index 065c5b3..14ec29b 100644
--- a/src/ethereum/prague/vm/gas.py
+++ b/src/ethereum/prague/vm/gas.py
@@ -16,6 +16,7 @@ from typing import List, Tuple
 
 from ethereum_types.numeric import U64, U256, Uint
 
+from ethereum.cancun.blocks import Header as PreviousHeader
 from ethereum.trace import GasAndRefund, evm_trace
 from ethereum.utils.numeric import ceil32, taylor_exponential
 
@@ -292,12 +293,12 @@ def calculate_excess_blob_gas(parent_header: Header) -> U64:
     excess_blob_gas: `ethereum.base_types.U64`
         The excess blob gas for the current block.
     """
-    # At the fork block, these are defined as zero.
+    # Before blobs were introduced, these are defined as zero.
     excess_blob_gas = U64(0)
     blob_gas_used = U64(0)
 
-    if isinstance(parent_header, Header):
-        # After the fork block, read them from the parent header.
+    if isinstance(parent_header, (Header, PreviousHeader)):
+        # The parent of the fork block belongs to the previous fork.
         excess_blob_gas = parent_header.excess_blob_gas
         blob_gas_used = parent_header.blob_gas_used
 
-- 
2.43.0


From 40ee363b94aaaddb7f809665982db05bb9257920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:13 +0000
Subject: [PATCH 09/32] fix: Frontier difficulty from block 200000 on no longer
 fails with a type error

---
 src/ethereum/frontier/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 0a28982..0067b2b 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -770,7 +770,7 @@ def calculate_block_difficulty(
     # See https://github.com/ethereum/go-ethereum/pull/1588
     num_bomb_periods = (int(block_number) // 100000) - 2
     if num_bomb_periods >= 0:
-        difficulty += 2**num_bomb_periods
+        difficulty += Uint(2**num_bomb_periods)
 
     # Some clients raise the difficulty to `MINIMUM_DIFFICULTY` prior to adding
     # the bomb. This bug does not matter because the difficulty is always much
-- 
2.43.0


From 72d500edad2235ac934839fac8aa014d15066e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:48 +0000
Subject: [PATCH 10/32] fix: Frontier difficulty no longer overflows for parent
 timestamps near 2**256

---
 src/ethereum/frontier/fork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum/frontier/fork.py b/src/ethereum/frontier/fork.py
index 0067b2b..c22c21b 100644
--- a/src/ethereum/frontier/fork.py
+++ b/src/ethereum/frontier/fork.py
@@ -758,7 +758,7 @@ def calculate_block_difficulty(
         Computed difficulty for a block.
     """
     max_adjustment_delta = parent_difficulty // Uint(2048)
-    if block_timestamp < parent_timestamp + U256(13):
+    if Uint(block_timestamp) < Uint(parent_timestamp) + Uint(13):
         difficulty = parent_difficulty + max_adjustment_delta
     else:  # block_timestamp >= parent_timestamp + 13
         difficulty = parent_difficulty - max_adjustment_delta
-- 
2.43.0


From e08a7746d3af1c5a00626ce8e25b4910e2a91204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 11/32] fix: genesis accounts may omit the balance and give the
 nonce in hexadecimal

---
 src/ethereum/genesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ethereum/genesis.py b/src/ethereum/genesis.py
index 564d639..114fc56 100644
--- a/src/ethereum/genesis.py
+++ b/src/ethereum/genesis.py
@@ -208,8 +208,8 @@ def add_genesis_block(
             chain.state,
             address,
             hardfork.Account(
-                Uint(int(account.get("nonce", "0"))),
-                hex_or_base_10_str_to_u256(account.get("balance", 0)),
+                Uint(hex_or_base_10_str_to_u256(account.get("nonce", "0"))),
+                hex_or_base_10_str_to_u256(account.get("balance", "0")),
                 hex_to_bytes(account.get("code", "0x")),
             ),
         )
-- 
2.43.0


From 06e0f81bc118bf604cfc5385deae7c95d2e197ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 12/32] fix: encode typed transactions of the t8n body with
 their type

Transactions read from JSON were written to the body as plain RLP lists,
so a typed transaction could not be decoded from it.
---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index d99b778..a5cdf38 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -178,12 +178,13 @@ class Txs:
             self.sign_transaction(raw_tx)
 
         tx = TransactionLoad(raw_tx, t8n.fork).read()
-        self.all_txs.append(tx)
 
         if t8n.fork.is_after_fork("ethereum.berlin"):
             transaction = t8n.fork.decode_transaction(tx)
+            self.all_txs.append(t8n.fork.encode_transaction(transaction))
         else:
             transaction = tx
+            self.all_txs.append(tx)
 
         return transaction
 
-- 
2.43.0


From 8d77f4e4a69582bc01a92ea2a1421bc2591ad184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 13/32] fix: report the blob gas used by the block in the t8n
 result

The field was never set, so blobGasUsed was missing from every result.
---
 src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
index a5cdf38..f0fde8e 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/t8n_types.py
@@ -319,6 +319,7 @@ class Result:
 
         if hasattr(block_env, "excess_blob_gas"):
             self.excess_blob_gas = block_env.excess_blob_gas
+            self.blob_gas_used = block_output.blob_gas_used
 
         if hasattr(block_output, "requests"):
             self.requests = block_output.requests
-- 
2.43.0


From 61f576b78d892d456406ab539bc162eb09a79936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 14/32] fix: pass the parent hash of the t8n environment to the
 history contract

The tool reads parentHash, but took the hash from the table of earlier
block hashes, and crashed when the parent is not listed there.
---
 src/ethereum_spec_tools/evm_tools/t8n/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index f3c09e9..3a3d7fb 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -256,7 +256,7 @@ class T8N(Load):
             self.fork.process_unchecked_system_transaction(
                 block_env=block_env,
                 target_address=self.fork.HISTORY_STORAGE_ADDRESS,
-                data=block_env.block_hashes[-1],  # The parent hash
+                data=self.env.parent_hash,
             )
 
         if self.fork.is_after_fork("ethereum.cancun"):
-- 
2.43.0


From 5239d03e2c85c8106a8c2adb52e896a1d69d94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 15/32] fix: the import lint looks at every name an import
 statement brings in

It saw only the first name of 'import a, b', and not the fork in
'from ethereum import fork'.
---
 src/ethereum_spec_tools/lint/lints/import_hygiene.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/lint/lints/import_hygiene.py b/src/ethereum_spec_tools/lint/lints/import_hygiene.py
index 648a6c2..2880144 100644
--- a/src/ethereum_spec_tools/lint/lints/import_hygiene.py
+++ b/src/ethereum_spec_tools/lint/lints/import_hygiene.py
@@ -105,10 +105,16 @@ class _Visitor(ast.NodeVisitor):
         """
         Visit an Import.
         """
-        self.item_imports.append(mod.names[0].name)
+        self.item_imports.extend(alias.name for alias in mod.names)
 
     def visit_ImportFrom(self, mod: ast.ImportFrom) -> None:
         """
         Visit an ImportFrom.
         """
-        self.item_imports.append(str(mod.module))
+        if mod.level == 0 and mod.module == "ethereum":
+            # The fork is named by what is imported.
+            self.item_imports.extend(
+                f"ethereum.{alias.name}" for alias in mod.names
+            )
+        else:
+            self.item_imports.append(str(mod.module))
-- 
2.43.0


From 1541e3aed75eb4e8cdd004970885d5ea85daf272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 16/32] fix: the lint only takes a comment as equal to another
 comment

---
 src/ethereum_spec_tools/lint/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ethereum_spec_tools/lint/__init__.py b/src/ethereum_spec_tools/lint/__init__.py
index 61cd9d8..91c4e84 100644
--- a/src/ethereum_spec_tools/lint/__init__.py
+++ b/src/ethereum_spec_tools/lint/__init__.py
@@ -30,6 +30,9 @@ def compare_ast(old: ast.AST, new: ast.AST) -> bool:
         isinstance(old, ast.Expr)
         and isinstance(old.value, ast.Constant)
         and isinstance(old.value.value, str)
+        and isinstance(new, ast.Expr)
+        and isinstance(new.value, ast.Constant)
+        and isinstance(new.value.value, str)
     ):
         return True
 
-- 
2.43.0


From c1deed4749f63476b3855f3aa0309b17d871b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 17/32] fix: sync reports a failed download instead of waiting
 forever

---
 src/ethereum_spec_tools/sync.py | 36 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 78a62d8..ac22c33 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -146,11 +146,37 @@ class BlockDownloader(ForkTracking):
         # Use a loop+timeout so that KeyboardInterrupt is still raised.
         while True:
             try:
-                return self.queue.get(timeout=1)
+                item = self.queue.get(timeout=1)
             except Empty:
+                continue
+
+            if isinstance(item, Exception):
+                raise item
+            return item
+
+    def push(self, item: Any) -> None:
+        """
+        Push onto the download queue, waiting for room.
+        """
+        # Use a loop+timeout so that KeyboardInterrupt is still raised.
+        while True:
+            try:
+                self.queue.put(item, timeout=1)
+                break
+            except Full:
                 pass
 
     def download(self) -> None:
+        """
+        Fetch blocks from the RPC provider until the end of the chain.
+        """
+        try:
+            self.download_blocks()
+        except Exception as e:
+            # Hand the failure over, otherwise `take_block()` waits forever.
+            self.push(e)
+
+    def download_blocks(self) -> None:
         """
         Fetch chunks of blocks from the RPC provider.
         """
@@ -173,13 +199,7 @@ class BlockDownloader(ForkTracking):
                 else:
                     to_push = reply
 
-                # Use a loop+timeout so that KeyboardInterrupt is still raised.
-                while True:
-                    try:
-                        self.queue.put(to_push, timeout=1)
-                        break
-                    except Full:
-                        pass
+                self.push(to_push)
 
     def fetch_blocks(
         self,
-- 
2.43.0


From ff52f57d74d38ed45908d7a0b8f3c1f3d9686f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 18/32] fix: sync decodes blocks in chain order and ommers with
 the fork of their block

---
 src/ethereum_spec_tools/sync.py | 37 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index ac22c33..67b6532 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -446,8 +446,8 @@ class BlockDownloader(ForkTracking):
         with request.urlopen(post) as response:
             replies = json.load(response)
             block_jsons: Dict[Uint, Any] = {}
-            ommers_needed: Dict[Uint, int] = {}
             blocks: Dict[Uint, Union[Any, RpcError]] = {}
+            missing: List[Uint] = []
 
             for reply in replies:
                 reply_id = Uint(int(reply["id"], 0))
@@ -463,19 +463,28 @@ class BlockDownloader(ForkTracking):
                 else:
                     res = reply["result"]
                     if res is None:
-                        from time import sleep
-
-                        sleep(12)
-                        break
+                        missing.append(reply_id)
+                    else:
+                        block_jsons[reply_id] = res
+
+            if missing:
+                # Wait for the next block, and keep those that precede it.
+                time.sleep(12)
+                block_jsons = {
+                    k: v for k, v in block_jsons.items() if k < min(missing)
+                }
 
-                    block_jsons[reply_id] = res
-                    ommers_needed[reply_id] = len(res["uncles"])
+            ommers = self.fetch_ommers(
+                {k: len(v["uncles"]) for k, v in block_jsons.items()}
+            )
 
-            ommers = self.fetch_ommers(ommers_needed)
-            for id in block_jsons:
+            # Replies can arrive in any order, but the fork has to be tracked
+            # in the order of the chain.
+            for id in sorted(block_jsons):
                 self.advance_block(hex_to_u256(block_jsons[id]["timestamp"]))
                 blocks[id] = self.make_block(
-                    block_jsons[id], ommers.get(id, ())
+                    block_jsons[id],
+                    tuple(self.make_header(x) for x in ommers.get(id, ())),
                 )
 
             self.log.info("blocks [%d, %d) fetched", first, first + count)
@@ -484,7 +493,7 @@ class BlockDownloader(ForkTracking):
 
     def fetch_ommers(self, ommers_needed: Dict[Uint, int]) -> Dict[Uint, Any]:
         """
-        Fetch the ommers for a given block from the RPC provider.
+        Fetch the ommers for the given blocks from the RPC provider, as JSON.
         """
         calls = []
 
@@ -537,9 +546,9 @@ class BlockDownloader(ForkTracking):
                         reply["error"]["message"],
                     )
                 else:
-                    ommers[reply_id // twenty][
-                        reply_id % twenty
-                    ] = self.make_header(reply["result"])
+                    ommers[reply_id // twenty][reply_id % twenty] = reply[
+                        "result"
+                    ]
 
             self.log.info(
                 "ommers [%d, %d] fetched",
-- 
2.43.0


From 5855519ae3d684ff9cfeea37304791a27b7db77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 19/32] fix: sync builds JSON transactions with the field types
 of the specification

---
 src/ethereum_spec_tools/sync.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 67b6532..122cf18 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -340,8 +340,8 @@ class BlockDownloader(ForkTracking):
                     self.module("transactions").AccessListTransaction(
                         hex_to_u64(t["chainId"]),
                         hex_to_u256(t["nonce"]),
-                        hex_to_u256(t["gasPrice"]),
-                        hex_to_u256(t["gas"]),
+                        hex_to_uint(t["gasPrice"]),
+                        hex_to_uint(t["gas"]),
                         self.module("utils.hexadecimal").hex_to_address(
                             t["to"]
                         )
@@ -360,9 +360,9 @@ class BlockDownloader(ForkTracking):
                     self.module("transactions").FeeMarketTransaction(
                         hex_to_u64(t["chainId"]),
                         hex_to_u256(t["nonce"]),
-                        hex_to_u256(t["maxPriorityFeePerGas"]),
-                        hex_to_u256(t["maxFeePerGas"]),
-                        hex_to_u256(t["gas"]),
+                        hex_to_uint(t["maxPriorityFeePerGas"]),
+                        hex_to_uint(t["maxFeePerGas"]),
+                        hex_to_uint(t["gas"]),
                         self.module("utils.hexadecimal").hex_to_address(
                             t["to"]
                         )
@@ -379,8 +379,8 @@ class BlockDownloader(ForkTracking):
             else:
                 return self.module("transactions").LegacyTransaction(
                     hex_to_u256(t["nonce"]),
-                    hex_to_u256(t["gasPrice"]),
-                    hex_to_u256(t["gas"]),
+                    hex_to_uint(t["gasPrice"]),
+                    hex_to_uint(t["gas"]),
                     self.module("utils.hexadecimal").hex_to_address(t["to"])
                     if t["to"]
                     else Bytes0(b""),
@@ -393,8 +393,8 @@ class BlockDownloader(ForkTracking):
         else:
             return self.module("transactions").Transaction(
                 hex_to_u256(t["nonce"]),
-                hex_to_u256(t["gasPrice"]),
-                hex_to_u256(t["gas"]),
+                hex_to_uint(t["gasPrice"]),
+                hex_to_uint(t["gas"]),
                 self.module("utils.hexadecimal").hex_to_address(t["to"])
                 if t["to"]
                 else Bytes0(b""),
-- 
2.43.0


From 78dcd3fc06d1fa851c33901e7be54787719cb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 20/32] fix: sync decodes blocks since Cancun from the standard
 endpoints

---
 src/ethereum_spec_tools/sync.py | 62 +++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 122cf18..60c0dec 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -26,6 +26,7 @@ from ethereum.utils.hexadecimal import (
     hex_to_bytes,
     hex_to_bytes8,
     hex_to_bytes32,
+    hex_to_u8,
     hex_to_u64,
     hex_to_u256,
     hex_to_uint,
@@ -376,6 +377,61 @@ class BlockDownloader(ForkTracking):
                         hex_to_u256(t["s"]),
                     )
                 )
+            elif t["type"] == "0x3":
+                return b"\x03" + rlp.encode(
+                    self.module("transactions").BlobTransaction(
+                        hex_to_u64(t["chainId"]),
+                        hex_to_u256(t["nonce"]),
+                        hex_to_uint(t["maxPriorityFeePerGas"]),
+                        hex_to_uint(t["maxFeePerGas"]),
+                        hex_to_uint(t["gas"]),
+                        self.module("utils.hexadecimal").hex_to_address(
+                            t["to"]
+                        ),
+                        hex_to_u256(t["value"]),
+                        hex_to_bytes(t["input"]),
+                        access_list,
+                        hex_to_u256(t["maxFeePerBlobGas"]),
+                        [hex_to_bytes32(h) for h in t["blobVersionedHashes"]],
+                        hex_to_u256(t["v"]),
+                        hex_to_u256(t["r"]),
+                        hex_to_u256(t["s"]),
+                    )
+                )
+            elif t["type"] == "0x4":
+                authorizations = []
+                for a in t["authorizationList"]:
+                    authorizations.append(
+                        self.module("fork_types").Authorization(
+                            hex_to_u256(a["chainId"]),
+                            self.module("utils.hexadecimal").hex_to_address(
+                                a["address"]
+                            ),
+                            hex_to_u64(a["nonce"]),
+                            hex_to_u8(a["yParity"]),
+                            hex_to_u256(a["r"]),
+                            hex_to_u256(a["s"]),
+                        )
+                    )
+                return b"\x04" + rlp.encode(
+                    self.module("transactions").SetCodeTransaction(
+                        hex_to_u64(t["chainId"]),
+                        hex_to_u64(t["nonce"]),
+                        hex_to_uint(t["maxPriorityFeePerGas"]),
+                        hex_to_uint(t["maxFeePerGas"]),
+                        hex_to_uint(t["gas"]),
+                        self.module("utils.hexadecimal").hex_to_address(
+                            t["to"]
+                        ),
+                        hex_to_u256(t["value"]),
+                        hex_to_bytes(t["input"]),
+                        access_list,
+                        authorizations,
+                        hex_to_u256(t["v"]),
+                        hex_to_u256(t["r"]),
+                        hex_to_u256(t["s"]),
+                    )
+                )
             else:
                 return self.module("transactions").LegacyTransaction(
                     hex_to_u256(t["nonce"]),
@@ -586,6 +642,12 @@ class BlockDownloader(ForkTracking):
             fields.append(hex_to_uint(json["baseFeePerGas"]))
         if hasattr(self.module("blocks").Header, "withdrawals_root"):
             fields.append(hex_to_bytes32(json["withdrawalsRoot"]))
+        if hasattr(self.module("blocks").Header, "blob_gas_used"):
+            fields.append(hex_to_u64(json["blobGasUsed"]))
+            fields.append(hex_to_u64(json["excessBlobGas"]))
+            fields.append(hex_to_bytes32(json["parentBeaconBlockRoot"]))
+        if hasattr(self.module("blocks").Header, "requests_hash"):
+            fields.append(hex_to_bytes32(json["requestsHash"]))
         return self.module("blocks").Header(*fields)
 
     def make_block(self, json: Any, ommers: Any) -> Any:
-- 
2.43.0


From d0123de821dba1958bda959fe7cf1d32394be109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 21/32] fix: sync converts the unoptimized state to the types
 of the next fork

---
 src/ethereum_spec_tools/sync.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/ethereum_spec_tools/sync.py b/src/ethereum_spec_tools/sync.py
index 60c0dec..236db84 100644
--- a/src/ethereum_spec_tools/sync.py
+++ b/src/ethereum_spec_tools/sync.py
@@ -1061,6 +1061,31 @@ class Sync(ForkTracking):
             elif gas_since_last_commit > self.options.gas_per_commit:
                 persist()
 
+    def convert_state(self, old: Any) -> Any:
+        """
+        Rebuild the unoptimized state out of the active fork's types, because
+        a fork does not recognize the accounts of another.
+        """
+        state_mod = self.module("state")
+        new = state_mod.State()
+
+        for address, account in old._main_trie._data.items():
+            state_mod.set_account(
+                new,
+                address,
+                self.module("fork_types").Account(
+                    nonce=account.nonce,
+                    balance=account.balance,
+                    code=account.code,
+                ),
+            )
+
+        for address, trie in old._storage_tries.items():
+            for key, value in trie._data.items():
+                state_mod.set_storage(new, address, key, value)
+
+        return new
+
     def process_block(self, block: Any) -> None:
         """
         Process a single block.
@@ -1071,6 +1096,8 @@ class Sync(ForkTracking):
         ):
             self.log.debug("applying %s fork...", self.active_fork.name)
             start = time.monotonic()
+            if self.options.unoptimized:
+                self.chain.state = self.convert_state(self.chain.state)
             self.chain = self.module("fork").apply_fork(self.chain)
             end = time.monotonic()
             self.log.info(
-- 
2.43.0


From 9ad99773eeea2b329a8103d6190941fb95759564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 22/32] fix: documentation differences compare tables

---
 src/ethereum_spec_tools/docc.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/ethereum_spec_tools/docc.py b/src/ethereum_spec_tools/docc.py
index c066f35..f0537e7 100644
--- a/src/ethereum_spec_tools/docc.py
+++ b/src/ethereum_spec_tools/docc.py
@@ -495,7 +495,12 @@ class _DoccAdapter(Adapter[Node]):
                     and lhs.prepend == rhs.prepend
                 )
             case blocks.Table:
-                return lhs.column_align == rhs.column_align
+                return lhs.column_align == rhs.column_align and (
+                    self.deep_equals(
+                        mistletoe.MarkdownNode(lhs.header),
+                        mistletoe.MarkdownNode(rhs.header),
+                    )
+                )
             case blocks.TableRow:
                 return lhs.row_align == rhs.row_align
             case blocks.TableCell:
@@ -546,9 +551,12 @@ class _DoccAdapter(Adapter[Node]):
             case blocks.ListItem:
                 result = (token.loose, token.leader, token.prepend)
             case blocks.Table:
-                result = (token.column_align,)
+                result = (
+                    tuple(token.column_align),
+                    self.deep_hash(mistletoe.MarkdownNode(token.header)),
+                )
             case blocks.TableRow:
-                result = (token.row_align,)
+                result = (tuple(token.row_align),)
             case blocks.TableCell:
                 result = (token.align,)
             case spans.LineBreak:
-- 
2.43.0


From b5db219e9e1f12313e10b97dd79570a71b1dbec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 23/32] fix: documentation differences pair the fields of a
 Python node by position

---
 src/ethereum_spec_tools/docc.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/docc.py b/src/ethereum_spec_tools/docc.py
index f0537e7..d17870a 100644
--- a/src/ethereum_spec_tools/docc.py
+++ b/src/ethereum_spec_tools/docc.py
@@ -708,6 +708,32 @@ class _DoccAdapter(Adapter[Node]):
         raise NotImplementedError(f"shallow_hash({type(node)})")
 
 
+class _DoccMatcher(TreeMatcher[Node]):
+    """
+    Matches the fields of Python nodes by position, because every field has
+    exactly one child and none can be inserted or deleted.
+    """
+
+    @override
+    def _resolveRootEqual(  # noqa: N802
+        self, aElem: Node, bElem: Node  # noqa: N803
+    ) -> Sequence[Operation]:
+        if not isinstance(aElem, python.PythonNode):
+            return super()._resolveRootEqual(aElem, bElem)
+
+        befores = self._adapter.children(aElem)
+        afters = self._adapter.children(bElem)
+        adapter = self._adapter.adapter
+
+        opcodes = []
+        for idx, (before, after) in enumerate(zip(befores, afters)):
+            equal = adapter.deep_equals(before, after)
+            tag = "equal" if equal else "replace"
+            opcodes.append((tag, idx, idx + 1, idx, idx + 1))
+
+        return self._resolveDeepReplace(opcodes, befores, afters)
+
+
 class _HardenVisitor(Visitor):
     _stack: Final[List[Node]]
 
@@ -993,7 +1019,7 @@ class _MinimizeDiffsVisitor(Visitor):
             after = after.child
 
         adapter = _DoccAdapter()
-        matcher = TreeMatcher(adapter, before, after)
+        matcher = _DoccMatcher(adapter, before, after)
         operations = matcher.compute_operations()
 
         apply = _DoccApply(node.before_name, before, node.after_name, after)
-- 
2.43.0


From 0005967185f4f9158ebd3b20c82c98b215a68dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 24/32] fix: documentation differences compare the targets of
 automatic links

---
 src/ethereum_spec_tools/docc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/docc.py b/src/ethereum_spec_tools/docc.py
index d17870a..969d2dd 100644
--- a/src/ethereum_spec_tools/docc.py
+++ b/src/ethereum_spec_tools/docc.py
@@ -460,9 +460,10 @@ class _DoccAdapter(Adapter[Node]):
                 | blocks.Paragraph
                 | blocks.ThematicBreak
                 | blocks.HTMLBlock
-                | spans.AutoLink
             ):
                 return True
+            case spans.AutoLink:
+                return lhs.target == rhs.target
             case spans.RawText | spans.HTMLSpan:
                 return lhs.content == rhs.content
             case spans.Image:
@@ -531,9 +532,10 @@ class _DoccAdapter(Adapter[Node]):
                 | blocks.Paragraph
                 | blocks.ThematicBreak
                 | blocks.HTMLBlock
-                | spans.AutoLink
             ):
                 result = ()
+            case spans.AutoLink:
+                result = (token.target,)
             case spans.RawText | spans.HTMLSpan:
                 result = (token.content,)
             case spans.Link:
-- 
2.43.0


From a4c443bdd11996918a2ebf5aa61abd5f7afa740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 25/32] fix: iterate over the modules of a fork

---
 src/ethereum_spec_tools/forks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/forks.py b/src/ethereum_spec_tools/forks.py
index eac1e63..55cf5b6 100644
--- a/src/ethereum_spec_tools/forks.py
+++ b/src/ethereum_spec_tools/forks.py
@@ -291,7 +291,7 @@ class Hardfork:
         if self.path is None:
             raise ValueError(f"cannot walk {self.name}, path is None")
 
-        return pkgutil.iter_modules(self.path, self.name + ".")
+        return pkgutil.iter_modules([self.path], self.name + ".")
 
     def walk_packages(self) -> Iterator[ModuleInfo]:
         """
-- 
2.43.0


From 061fb77fa746d012658c4924043f6b622fcc5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 26/32] fix: load fixture blocks that come without RLP

---
 .../evm_tools/loaders/fixture_loader.py               | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py b/src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py
index df11319..8392014 100644
--- a/src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py
+++ b/src/ethereum_spec_tools/evm_tools/loaders/fixture_loader.py
@@ -109,7 +109,7 @@ class Load(BaseLoad):
 
         header = self.json_to_header(json_block["blockHeader"])
         transactions = tuple(
-            TransactionLoad(tx, self.fork).read()
+            self.json_to_block_transaction(tx)
             for tx in json_block["transactions"]
         )
         uncles = tuple(
@@ -133,10 +133,17 @@ class Load(BaseLoad):
         block_header_hash = Hash32(
             hex_to_bytes(json_block["blockHeader"]["hash"])
         )
-        block_rlp = hex_to_bytes(json_block["rlp"])
+        block_rlp = rlp.encode(block)
 
         return block, block_header_hash, block_rlp
 
+    def json_to_block_transaction(self, raw: Any) -> Any:
+        """Converts json transaction data to how a block holds it"""
+        tx = TransactionLoad(raw, self.fork).read()
+        if hasattr(self.fork, "encode_transaction"):
+            return self.fork.encode_transaction(tx)
+        return tx
+
     def json_to_header(self, raw: Any) -> Any:
         """Converts json header data to a header object"""
         parameters = [
-- 
2.43.0


From f24bfa653fe373fe5dbddb390cf1f29f96589a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 27/32] fix: keep the tracers of a t8n run to that run

---
 .../evm_tools/t8n/__init__.py                 | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
index 3a3d7fb..d376665 100644
--- a/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/t8n/__init__.py
@@ -6,7 +6,8 @@ import argparse
 import fnmatch
 import json
 import os
-from typing import Any, Final, TextIO, Type, TypeVar
+from contextlib import contextmanager
+from typing import Any, Final, Iterator, TextIO, Type, TypeVar
 
 from ethereum_rlp import rlp
 from ethereum_types.numeric import U64, U256, Uint
@@ -128,7 +129,6 @@ class T8N(Load):
 
         maybe_tracers: GroupTracer | None
         if tracers.tracers:
-            trace.set_evm_trace(tracers)
             maybe_tracers = tracers
         else:
             maybe_tracers = None
@@ -159,6 +159,22 @@ class T8N(Load):
             raise Exception(f"no tracer of type `{type_}` found")
         return found
 
+    @contextmanager
+    def _tracing(self) -> Iterator[None]:
+        """
+        Activate the tracers of this run, and put back the previous tracer
+        afterwards.
+        """
+        if self.tracers is None:
+            yield
+            return
+
+        previous = trace.set_evm_trace(self.tracers)
+        try:
+            yield
+        finally:
+            trace.set_evm_trace(previous)
+
     def block_environment(self) -> Any:
         """
         Create the environment for the transaction. The keyword
@@ -237,12 +253,13 @@ class T8N(Load):
         if len(self.txs.transactions) > 0:
             tx = self.txs.transactions[0]
             try:
-                self.fork.process_transaction(
-                    block_env=block_env,
-                    block_output=block_output,
-                    tx=tx,
-                    index=Uint(0),
-                )
+                with self._tracing():
+                    self.fork.process_transaction(
+                        block_env=block_env,
+                        block_output=block_output,
+                        tx=tx,
+                        index=Uint(0),
+                    )
             except EthereumException as e:
                 self.txs.rejected_txs[0] = f"Failed transaction: {e!r}"
                 self.restore_state()
@@ -301,7 +318,8 @@ class T8N(Load):
         block_output = self.fork.BlockOutput()
 
         try:
-            self._run_blockchain_test(block_env, block_output)
+            with self._tracing():
+                self._run_blockchain_test(block_env, block_output)
         except InvalidBlock as e:
             self.result.block_exception = f"{e}"
 
-- 
2.43.0


From 7106f2de57c3ee3b6ec8d0689ec35e5faee72a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 28/32] fix: the daemon runs without a timeout

---
 src/ethereum_spec_tools/evm_tools/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ethereum_spec_tools/evm_tools/daemon.py b/src/ethereum_spec_tools/evm_tools/daemon.py
index 2acf6fd..e5d9ea7 100644
--- a/src/ethereum_spec_tools/evm_tools/daemon.py
+++ b/src/ethereum_spec_tools/evm_tools/daemon.py
@@ -28,6 +28,7 @@ def daemon_arguments(subparsers: argparse._SubParsersAction) -> None:
         help="Timeout to shutdown daemon if there are not requests"
         " (0 for no timeout)",
         type=int,
+        default=0,
     )
 
 
-- 
2.43.0


From 5c6255b6ac8a22ed4acbc4e6f202796c449f145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 29/32] fix: a bad request does not end the daemon

---
 src/ethereum_spec_tools/evm_tools/daemon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/daemon.py b/src/ethereum_spec_tools/evm_tools/daemon.py
index e5d9ea7..2532e67 100644
--- a/src/ethereum_spec_tools/evm_tools/daemon.py
+++ b/src/ethereum_spec_tools/evm_tools/daemon.py
@@ -113,7 +113,11 @@ class _EvmToolHandler(BaseHTTPRequestHandler):
         with TextIOWrapper(
             self.wfile, encoding="utf-8"  # type: ignore[type-var]
         ) as out_wrapper:
-            main(args=args, out_file=out_wrapper, in_file=input)
+            try:
+                main(args=args, out_file=out_wrapper, in_file=input)
+            except SystemExit as e:
+                # Only this request is at fault, so keep the server running.
+                raise ValueError(f"invalid request: {e}") from e
 
 
 class _UnixSocketHttpServer(socketserver.UnixStreamServer):
-- 
2.43.0


From 2024f44889c2351e924e6bd1cdefb0e305a35864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 30/32] fix: the daemon does not time out while it answers a
 request

---
 src/ethereum_spec_tools/evm_tools/daemon.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ethereum_spec_tools/evm_tools/daemon.py b/src/ethereum_spec_tools/evm_tools/daemon.py
index 2532e67..5dc74e9 100644
--- a/src/ethereum_spec_tools/evm_tools/daemon.py
+++ b/src/ethereum_spec_tools/evm_tools/daemon.py
@@ -122,6 +122,7 @@ class _EvmToolHandler(BaseHTTPRequestHandler):
 
 class _UnixSocketHttpServer(socketserver.UnixStreamServer):
     last_response: float
+    busy: bool
     shutdown_timeout: int
 
     def __init__(
@@ -131,6 +132,7 @@ class _UnixSocketHttpServer(socketserver.UnixStreamServer):
         # Add a 60-second allowance to prevent server from timing out during
         # startup
         self.last_response = time.monotonic() + 60.0
+        self.busy = False
         super().__init__(*args, **kwargs)
 
     def get_request(self) -> Tuple[Any, Any]:
@@ -140,17 +142,22 @@ class _UnixSocketHttpServer(socketserver.UnixStreamServer):
     def finish_request(
         self, request: Union[socket, Tuple[bytes, socket]], client_address: Any
     ) -> None:
+        self.busy = True
         try:
             super().finish_request(request, client_address)
         finally:
             self.last_response = time.monotonic()
+            self.busy = False
 
     def check_timeout(self) -> None:
         while self.shutdown_timeout != 0:
             time.sleep(11.0)
             now = time.monotonic()
+            busy = self.busy
             last_response = self.last_response
-            if last_response is None:
+            if busy:
+                continue
+            elif last_response is None:
                 self.last_response = now
             elif now - last_response > float(self.shutdown_timeout):
                 self.shutdown()
-- 
2.43.0


From 49522b55cb7edeb1b70aee6524f2bb8f0e2dab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 31/32] fix: the block builder reads withdrawals alone from the
 standard input

---
 src/ethereum_spec_tools/evm_tools/b11r/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ethereum_spec_tools/evm_tools/b11r/__init__.py b/src/ethereum_spec_tools/evm_tools/b11r/__init__.py
index e106af5..974802c 100644
--- a/src/ethereum_spec_tools/evm_tools/b11r/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/b11r/__init__.py
@@ -80,6 +80,7 @@ class B11R:
             options.input_header,
             options.input_ommers,
             options.input_txs,
+            options.input_withdrawals,
         ):
             stdin = json.load(in_file)
         else:
-- 
2.43.0


From a9a9bdde5aec7d13687f3c95ae4bfb2845df8883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:36 +0000
Subject: [PATCH 32/32] fix: the block builder writes below the given output
 directory

---
 src/ethereum_spec_tools/evm_tools/b11r/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ethereum_spec_tools/evm_tools/b11r/__init__.py b/src/ethereum_spec_tools/evm_tools/b11r/__init__.py
index 974802c..93c5952 100644
--- a/src/ethereum_spec_tools/evm_tools/b11r/__init__.py
+++ b/src/ethereum_spec_tools/evm_tools/b11r/__init__.py
@@ -4,6 +4,7 @@ Create a block builder tool for the given fork.
 
 import argparse
 import json
+import os
 from typing import Optional, TextIO
 
 from ethereum_rlp import rlp
@@ -135,10 +136,14 @@ class B11R:
         if self.options.output_block == "stdout":
             json.dump(result, self.out_file, indent=4)
         else:
-            with open(self.options.output_block, "w") as f:
+            result_output_path = os.path.join(
+                self.options.output_basedir or "",
+                self.options.output_block,
+            )
+            with open(result_output_path, "w") as f:
                 json.dump(result, f, indent=4)
             self.logger.info(
-                f"The result has been written to {self.options.output_block}."
+                f"The result has been written to {result_output_path}."
             )
 
         return 0
-- 
2.43.0

