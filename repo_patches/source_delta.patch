From 4115601477c94cf3a7fb755953f280220d5449a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 01/42] fix: confirming an unspent in the in-memory store keeps
 its reservation

---
 .../storage/db/inmemory/unspent_memory_repository_impl.go        | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
index 2871252..89211a8 100644
--- a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
@@ -179,7 +179,6 @@ func (r UnspentRepositoryImpl) ConfirmUnspents(
 		if unspent, ok := r.store.unspents[key]; ok {
 			if !unspent.IsConfirmed() {
 				unspent.Confirm()
-				unspent.Unlock()
 				r.store.unspents[key] = unspent
 				count++
 			}
-- 
2.43.0


From 523f0a8139f47f81408bb4f8242e8ad7b3cf8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 02/42] fix: a failed or expired trade cannot be completed

---
 internal/core/domain/trade_service.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index 4a488a0..312cfce 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -104,6 +104,10 @@ type CompleteResult struct {
 // be called before the trade expires, otherwise it won't be possible to
 // actually complete an accepted trade.
 func (t *Trade) Complete(tx string) (*CompleteResult, error) {
+	if t.Status.Code == Expired {
+		return nil, ErrTradeExpired
+	}
+
 	if t.Status.Code >= Completed {
 		return &CompleteResult{OK: true, TxHex: t.TxHex, TxID: t.TxID}, nil
 	}
@@ -119,6 +123,10 @@ func (t *Trade) Complete(tx string) (*CompleteResult, error) {
 		return nil, ErrTradeExpired
 	}
 
+	if t.Status.Failed {
+		return nil, ErrTradeMustBeAccepted
+	}
+
 	swapCompleteID, swapCompleteMsg, err := SwapParserManager.SerializeComplete(
 		t.SwapAccept.Message,
 		tx,
-- 
2.43.0


From c73674943eee5e71590220273938c492542c052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 03/42] fix: refuse a quote whose amount overflows instead of
 wrapping around

---
 internal/core/domain/pluggable_strategy.go    | 12 ++++++++++--
 pkg/marketmaking/formula/balanced_reserves.go |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/core/domain/pluggable_strategy.go b/internal/core/domain/pluggable_strategy.go
index 9aba40b..700621f 100644
--- a/internal/core/domain/pluggable_strategy.go
+++ b/internal/core/domain/pluggable_strategy.go
@@ -31,7 +31,11 @@ func (s PluggableStrategy) OutGivenIn(_opts interface{}, amountIn uint64) (uint6
 		return 0, ErrMarketPreviewAmountTooLow
 	}
 
-	amountR := decimal.NewFromInt(int64(amountIn)).Mul(opts.Price).BigInt().Uint64()
+	amountRBig := decimal.NewFromInt(int64(amountIn)).Mul(opts.Price).BigInt()
+	if !amountRBig.IsInt64() {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	amountR := amountRBig.Uint64()
 	amountR, _ = mathutil.LessFee(amountR, opts.Fee)
 	if amountR == 0 {
 		return 0, ErrMarketPreviewAmountTooLow
@@ -51,7 +55,11 @@ func (s PluggableStrategy) InGivenOut(_opts interface{}, amountOut uint64) (uint
 		return 0, ErrMarketPreviewAmountTooBig
 	}
 
-	amountP := decimal.NewFromInt(int64(amountOut)).Mul(opts.Price).BigInt().Uint64()
+	amountPBig := decimal.NewFromInt(int64(amountOut)).Mul(opts.Price).BigInt()
+	if !amountPBig.IsInt64() {
+		return 0, ErrMarketPreviewAmountTooBig
+	}
+	amountP := amountPBig.Uint64()
 	amountP, _ = mathutil.PlusFee(amountP, opts.Fee)
 	if amountP == 0 {
 		return 0, ErrMarketPreviewAmountTooLow
diff --git a/pkg/marketmaking/formula/balanced_reserves.go b/pkg/marketmaking/formula/balanced_reserves.go
index 1bafafb..773799e 100644
--- a/pkg/marketmaking/formula/balanced_reserves.go
+++ b/pkg/marketmaking/formula/balanced_reserves.go
@@ -142,7 +142,11 @@ func (BalancedReserves) InGivenOut(_opts interface{}, amountOut uint64) (uint64,
 		).Sub(decimal.NewFromInt(1)),
 	)
 
-	amountIn := amountInDecimal.BigInt().Uint64()
+	amountInBig := amountInDecimal.BigInt()
+	if !amountInBig.IsInt64() {
+		return 0, ErrAmountTooBig
+	}
+	amountIn := amountInBig.Uint64()
 	if opts.ChargeFeeOnTheWayIn {
 		amountIn, _ = mathutil.PlusFee(amountIn, opts.Fee)
 	}
-- 
2.43.0


From b0f64b9b04a0476e2a7b0144d5184ff5770ec2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 04/42] fix: a market with supplied prices opens only once both
 prices are set

---
 internal/core/domain/market_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/core/domain/market_service.go b/internal/core/domain/market_service.go
index 20604b5..5d6d07b 100644
--- a/internal/core/domain/market_service.go
+++ b/internal/core/domain/market_service.go
@@ -65,7 +65,7 @@ func (m *Market) IsStrategyPluggable() bool {
 
 // IsStrategyPluggableInitialized returns true if the prices have been set.
 func (m *Market) IsStrategyPluggableInitialized() bool {
-	return !m.Price.AreZero()
+	return !m.BaseAssetPrice().IsZero() && !m.QuoteAssetPrice().IsZero()
 }
 
 // FundMarket adds the assets of market from the given array of outpoints.
-- 
2.43.0


From e0b673a2bd801232b589fcff15203160bcd7498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 05/42] fix: coin selections that run at the same time no
 longer share their scratch state

---
 pkg/explorer/coinselection.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/explorer/coinselection.go b/pkg/explorer/coinselection.go
index da9b4ca..689c393 100644
--- a/pkg/explorer/coinselection.go
+++ b/pkg/explorer/coinselection.go
@@ -105,11 +105,15 @@ func isIndexOccupied(i int, list []int) bool {
 	return false
 }
 
-var combination = []uint64{}
-
 //getCombination is calculating all combinations for 'size' the elements of src array
 // number of combination formula -> len(src)! / size! * (len(src) - size)!
 func getCombination(src []uint64, size int, offset int) [][]uint64 {
+	return extendCombination(nil, src, size, offset)
+}
+
+func extendCombination(
+	combination, src []uint64, size int, offset int,
+) [][]uint64 {
 	result := [][]uint64{}
 	if size == 0 {
 		temp := make([]uint64, len(combination))
@@ -118,7 +122,7 @@ func getCombination(src []uint64, size int, offset int) [][]uint64 {
 	}
 	for i := offset; i <= len(src)-size; i++ {
 		combination = append(combination, src[i])
-		temp := getCombination(src, size-1, i+1)
+		temp := extendCombination(combination, src, size-1, i+1)
 		result = append(result, temp...)
 		combination = combination[:len(combination)-1]
 	}
-- 
2.43.0


From 8551244084a5684833204af0d6ab6e72499f2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 06/42] fix: vault updates that run at the same time no longer
 overwrite each other

UpdateVault read the vault and wrote it back in two steps. Two updates running at the same time read the same vault and
the later write undid the earlier one, so that an address already handed out was derived and handed out again.
---
 .../storage/db/badger/vault_repository_impl.go        | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/badger/vault_repository_impl.go b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
index 39611a4..d2f0b51 100644
--- a/internal/infrastructure/storage/db/badger/vault_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
@@ -3,6 +3,7 @@ package dbbadger
 import (
 	"context"
 	"fmt"
+	"sync"
 
 	"github.com/dgraph-io/badger/v2"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
@@ -18,10 +19,13 @@ const (
 
 type vaultRepositoryImpl struct {
 	store *badgerhold.Store
+	// updateLock prevents updates made outside of a transaction from overwriting
+	// each other.
+	updateLock *sync.Mutex
 }
 
 func NewVaultRepositoryImpl(store *badgerhold.Store) domain.VaultRepository {
-	return vaultRepositoryImpl{store}
+	return vaultRepositoryImpl{store, &sync.Mutex{}}
 }
 
 func (v vaultRepositoryImpl) GetOrCreateVault(
@@ -37,6 +41,11 @@ func (v vaultRepositoryImpl) UpdateVault(
 	ctx context.Context,
 	updateFn func(v *domain.Vault) (*domain.Vault, error),
 ) error {
+	if ctx.Value("tx") == nil {
+		v.updateLock.Lock()
+		defer v.updateLock.Unlock()
+	}
+
 	vault, err := v.getVault(ctx)
 	if err != nil {
 		return err
-- 
2.43.0


From c7095514ea06e5ced5ee220831fe16bafcf7400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 07/42] fix: a failed vault update changes nothing in the
 in-memory store

The update function worked on the stored vault itself, so that whatever it changed before failing stayed.
---
 .../inmemory/vault_memory_implementation.go   | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
index 1e31d32..0d5ee1e 100644
--- a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
+++ b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
@@ -58,7 +58,8 @@ func (r VaultRepositoryImpl) UpdateVault(
 		return ErrVaultNotFound
 	}
 
-	updatedVault, err := updateFn(v)
+	// a failed update must not leave any change behind
+	updatedVault, err := updateFn(copyVault(v))
 	if err != nil {
 		return err
 	}
@@ -150,3 +151,28 @@ func (r VaultRepositoryImpl) getDerivationPathByScript(
 
 	return m, nil
 }
+
+func copyVault(v *domain.Vault) *domain.Vault {
+	vault := *v
+
+	vault.Accounts = make(map[int]*domain.Account)
+	for i, a := range v.Accounts {
+		if a == nil {
+			vault.Accounts[i] = nil
+			continue
+		}
+		account := *a
+		account.DerivationPathByScript = make(map[string]string)
+		for script, path := range a.DerivationPathByScript {
+			account.DerivationPathByScript[script] = path
+		}
+		vault.Accounts[i] = &account
+	}
+
+	vault.AccountAndKeyByAddress = make(map[string]domain.AccountAndKey)
+	for addr, info := range v.AccountAndKeyByAddress {
+		vault.AccountAndKeyByAddress[addr] = info
+	}
+
+	return &vault
+}
-- 
2.43.0


From 23d552a5a413a6cb74a7b0e2f3aaf97b8282f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 08/42] fix: changing the password of the secure store keeps
 every entry

Keys and buckets containing an underscore were lost or crashed the
daemon, errors while reading were swallowed, and a crash half way left
entries that neither password could decrypt. Everything is now encrypted
again in one transaction, and other calls wait for it.
---
 pkg/securestore/bolt/store.go | 209 ++++++++++++++++------------------
 1 file changed, 99 insertions(+), 110 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index 6a85c2a..8b7389e 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -2,10 +2,8 @@ package boltsecurestore
 
 import (
 	"bytes"
-	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
 	"sync"
 
 	"github.com/btcsuite/btcwallet/snacl"
@@ -67,12 +65,22 @@ func NewSecureStorage(datadir, filename string) (securestore.SecureStorage, erro
 // IsLocked returns whether the store is locked by checking if the encryption
 // key is stored in-memory.
 func (s *boltSecureStorage) IsLocked() bool {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
 	return s.encKey == nil
 }
 
 // Lock eventually locks the store by flushing the in-memory encryption key.
 func (s *boltSecureStorage) Lock() {
-	if !s.IsLocked() {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
+	s.lock()
+}
+
+func (s *boltSecureStorage) lock() {
+	if s.encKey != nil {
 		s.encKey.Zero()
 		s.encKey = nil
 	}
@@ -81,8 +89,11 @@ func (s *boltSecureStorage) Lock() {
 // CreateUnlock sets an encryption key if one is not already set, otherwise it
 // checks if the password is correct for the stored encryption key.
 func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// Is the store is already unlocked there's nothing to do here.
-	if !s.IsLocked() {
+	if s.encKey != nil {
 		return nil
 	}
 
@@ -90,9 +101,6 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 		return ErrPasswordRequired
 	}
 
-	s.encKeyMtx.Lock()
-	defer s.encKeyMtx.Unlock()
-
 	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
@@ -134,10 +142,15 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 
 // ChangePassword decrypts the store (included the root key) with the old
 // password and then encrypts it again with the new password.
+// Either the whole content of the store gets encrypted with the new password
+// or nothing changes.
 func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// The store must be already unlocked. This ensures that there already is a
 	// key in the DB.
-	if s.IsLocked() {
+	if s.encKey == nil {
 		return ErrStoreLocked
 	}
 
@@ -152,9 +165,8 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 		return err
 	}
 
-	// Check that old password is correct.
-	if err := kvdb.View(s.db, func(tx kvdb.RTx) error {
-		bucket := tx.ReadBucket(RootKeyBucketName)
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
 		}
@@ -165,42 +177,37 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 			return ErrEncKeyNotFound
 		}
 
+		// Check that old password is correct.
 		encKeyOld := &snacl.SecretKey{}
 		if err := encKeyOld.Unmarshal(dbKey); err != nil {
 			return err
 		}
-
-		return encKeyOld.DeriveKey(&oldPw)
-	}, func() {}); err != nil {
-		return err
-	}
-
-	// Efficiently decrypt DB with old password and encrypt is again with the
-	// new one.
-	if err := s.updateEncryptedDb(encKeyNew); err != nil {
-		return err
-	}
-
-	// Finally, store the new encryption key parameters in the DB
-	// as well.
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
-		bucket := tx.ReadWriteBucket(RootKeyBucketName)
-		if bucket == nil {
-			return ErrRootKeyBucketNotFound
+		if err := encKeyOld.DeriveKey(&oldPw); err != nil {
+			return err
 		}
 
-		if err := bucket.Put(encryptionKeyID, encKeyNew.Marshal()); err != nil {
+		// Decrypt DB with old password and encrypt it again with the new one.
+		if err := reencryptBucket(bucket, encKeyOld, encKeyNew); err != nil {
 			return err
 		}
 
-		s.encKey = encKeyNew
-		return nil
-	}, func() {})
+		// Finally, store the new encryption key parameters in the DB
+		// as well.
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
+	}, func() {}); err != nil {
+		return err
+	}
+
+	s.encKey = encKeyNew
+	return nil
 }
 
 // CreateBucket creates a nested bucket into the root one.
 func (s *boltSecureStorage) CreateBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.encKey == nil {
 		return ErrStoreLocked
 	}
 
@@ -224,7 +231,10 @@ func (s *boltSecureStorage) CreateBucket(key []byte) error {
 // AddToBucket stores the provided data encrypted into the given bucket.
 // If the bucket key is nil, the key/value entry is added to the root one.
 func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.encKey == nil {
 		return ErrStoreLocked
 	}
 
@@ -265,7 +275,10 @@ func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
 // GetFromBucket retrieves data for the given key and bucket. If the bucket key
 // is nil, data is retrieved from the root bucket.
 func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.encKey == nil {
 		return nil, ErrStoreLocked
 	}
 
@@ -313,7 +326,10 @@ func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error)
 // GetAllFromBucket returns all data stored in the given bucket.
 // If the bucket key is nil
 func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.encKey == nil {
 		return nil, ErrStoreLocked
 	}
 
@@ -350,7 +366,10 @@ func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byt
 }
 
 func (s *boltSecureStorage) ListBuckets() ([][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.encKey == nil {
 		return nil, ErrStoreLocked
 	}
 
@@ -382,7 +401,7 @@ func (s *boltSecureStorage) Close() error {
 	s.encKeyMtx.Lock()
 	defer s.encKeyMtx.Unlock()
 
-	s.Lock()
+	s.lock()
 
 	return s.db.Close()
 }
@@ -390,7 +409,10 @@ func (s *boltSecureStorage) Close() error {
 // RemoveFromBucket removes the entry identified by the given key for the given
 // bucket. If bucket key is nil, the entry is removed from the root bucket.
 func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.encKey == nil {
 		return ErrStoreLocked
 	}
 
@@ -419,7 +441,10 @@ func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
 }
 
 func (s *boltSecureStorage) RemoveBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.encKey == nil {
 		return ErrStoreLocked
 	}
 
@@ -440,84 +465,48 @@ func (s *boltSecureStorage) RemoveBucket(key []byte) error {
 	}, func() {})
 }
 
-type bucketData struct {
-	bucketKey []byte
-	data      map[string][]byte
-	err       error
-}
+// reencryptBucket decrypts every value of the given bucket, and of its nested
+// ones, with the old key and replaces it with its encryption with the new key.
+func reencryptBucket(
+	bucket walletdb.ReadWriteBucket, oldKey, newKey *snacl.SecretKey,
+) error {
+	var bucketKeys [][]byte
+	values := make(map[string][]byte)
 
-func (s *boltSecureStorage) updateEncryptedDb(newKey *snacl.SecretKey) error {
-	buckets, err := s.ListBuckets()
-	if err != nil {
+	// The bucket must not be modified while iterating over its entries.
+	if err := bucket.ForEach(func(k, v []byte) error {
+		if v == nil {
+			bucketKeys = append(bucketKeys, append([]byte{}, k...))
+			return nil
+		}
+		if bytes.Equal(k, encryptionKeyID) {
+			return nil
+		}
+		value, err := oldKey.Decrypt(v)
+		if err != nil {
+			return err
+		}
+		values[string(k)] = value
+		return nil
+	}); err != nil {
 		return err
 	}
-	// nil key is used for the top level bucket
-	buckets = append(buckets, nil)
-
-	wg := &sync.WaitGroup{}
-	wg.Add(len(buckets))
-	chData := make(chan bucketData)
-
-	go func() {
-		wg.Wait()
-		close(chData)
-	}()
-
-	for _, bucketKey := range buckets {
-		go s.getAllFromBucket(bucketKey, wg, chData)
-	}
 
-	allBucketData := make(map[string][]byte)
-	for d := range chData {
-		if d.err != nil {
+	for k, v := range values {
+		encryptedValue, err := newKey.Encrypt(v)
+		if err != nil {
 			return err
 		}
-
-		for k, v := range d.data {
-			key := fmt.Sprintf("%s_%s", string(d.bucketKey), k)
-			allBucketData[key] = v
+		if err := bucket.Put([]byte(k), encryptedValue); err != nil {
+			return err
 		}
 	}
 
-	wg = &sync.WaitGroup{}
-	wg.Add(len(allBucketData))
-
-	for k := range allBucketData {
-		k := k
-		v := allBucketData[k]
-		go func() {
-			defer wg.Done()
-			kk := strings.Split(k, "_")
-			bucketKey := []byte(kk[0])
-			key := []byte(kk[1])
-
-			kvdb.Batch(s.db, func(tx kvdb.RwTx) error {
-				bucket := tx.ReadWriteBucket(RootKeyBucketName)
-				if len(bucketKey) > 0 {
-					bucket = bucket.NestedReadWriteBucket(bucketKey)
-				}
-
-				encryptedValue, _ := newKey.Encrypt(v)
-				bucket.Put(key, encryptedValue)
-				return nil
-			})
-		}()
+	for _, k := range bucketKeys {
+		nested := bucket.NestedReadWriteBucket(k)
+		if err := reencryptBucket(nested, oldKey, newKey); err != nil {
+			return err
+		}
 	}
-
-	wg.Wait()
-
 	return nil
 }
-
-func (s *boltSecureStorage) getAllFromBucket(
-	key []byte, wg *sync.WaitGroup, chData chan bucketData,
-) {
-	defer wg.Done()
-
-	data, err := s.GetAllFromBucket(key)
-	if err != nil {
-		chData <- bucketData{err: err}
-		return
-	}
-	chData <- bucketData{bucketKey: key, data: data}
-}
-- 
2.43.0


From 9bf9f105eba96d6cb7d2ddce9eb98321072f535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 09/42] fix: every macaroon root key survives a password change

Only the default root key was encrypted with the new password, so
macaroons baked with any other key stopped working for good.
---
 pkg/macaroons/store.go | 65 +++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/pkg/macaroons/store.go b/pkg/macaroons/store.go
index 64b55dc..7b1ca3c 100644
--- a/pkg/macaroons/store.go
+++ b/pkg/macaroons/store.go
@@ -138,9 +138,12 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 	}, func() {})
 }
 
-// ChangePassword decrypts the macaroon root key with the old password and then
-// encrypts it again with the new password.
+// ChangePassword decrypts the macaroon root keys with the old password and then
+// encrypts them again with the new password.
 func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
+	r.encKeyMtx.Lock()
+	defer r.encKeyMtx.Unlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB.
 	if r.encKey == nil {
@@ -152,7 +155,8 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 		return ErrPasswordRequired
 	}
 
-	return kvdb.Update(r, func(tx kvdb.RwTx) error {
+	var encKeyNew *snacl.SecretKey
+	err := kvdb.Update(r, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(rootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
@@ -179,40 +183,52 @@ func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
 		}
 
 		// Create a new encryption key from the new password.
-		encKeyNew, err := snacl.NewSecretKey(
+		encKeyNew, err = snacl.NewSecretKey(
 			&newPw, scryptN, scryptR, scryptP,
 		)
 		if err != nil {
 			return err
 		}
 
-		// Now try to decrypt the root key with the old encryption key,
-		// encrypt it with the new one and then store it in the DB.
-		decryptedKey, err := encKeyOld.Decrypt(rootKeyDb)
-		if err != nil {
-			return err
-		}
-		rootKey := make([]byte, len(decryptedKey))
-		copy(rootKey, decryptedKey)
-		encryptedKey, err := encKeyNew.Encrypt(rootKey)
+		// Now try to decrypt every root key with the old encryption key,
+		// encrypt it with the new one and then store it in the DB. The
+		// bucket must not be modified while iterating over its entries.
+		encryptedKeys := make(map[string][]byte)
+		err = bucket.ForEach(func(id, dbKey []byte) error {
+			if bytes.Equal(id, encryptionKeyID) {
+				return nil
+			}
+			rootKey, err := encKeyOld.Decrypt(dbKey)
+			if err != nil {
+				return err
+			}
+			encryptedKey, err := encKeyNew.Encrypt(rootKey)
+			if err != nil {
+				return err
+			}
+			encryptedKeys[string(id)] = encryptedKey
+			return nil
+		})
 		if err != nil {
 			return err
 		}
-		err = bucket.Put(DefaultRootKeyID, encryptedKey)
-		if err != nil {
-			return err
+		for id, encryptedKey := range encryptedKeys {
+			err = bucket.Put([]byte(id), encryptedKey)
+			if err != nil {
+				return err
+			}
 		}
 
 		// Finally, store the new encryption key parameters in the DB
 		// as well.
-		err = bucket.Put(encryptionKeyID, encKeyNew.Marshal())
-		if err != nil {
-			return err
-		}
-
-		r.encKey = encKeyNew
-		return nil
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
 	}, func() {})
+	if err != nil {
+		return err
+	}
+
+	r.encKey = encKeyNew
+	return nil
 }
 
 // Get implements the Get method for the bakery.RootKeyStorage interface.
@@ -313,6 +329,9 @@ func (r *RootKeyStorage) RootKey(ctx context.Context) ([]byte, []byte, error) {
 // GenerateNewRootKey generates a new macaroon root key, replacing the previous
 // root key if it existed.
 func (r *RootKeyStorage) GenerateNewRootKey() error {
+	r.encKeyMtx.RLock()
+	defer r.encKeyMtx.RUnlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB that can be replaced.
 	if r.encKey == nil {
-- 
2.43.0


From 45745bfbf6e16fe187d53577e77c4ddabfcd0516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 10/42] fix: listed macaroon root key ids stay valid after the
 transaction

---
 pkg/macaroons/store.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/macaroons/store.go b/pkg/macaroons/store.go
index 7b1ca3c..898400f 100644
--- a/pkg/macaroons/store.go
+++ b/pkg/macaroons/store.go
@@ -402,7 +402,11 @@ func (r *RootKeyStorage) ListMacaroonIDs(_ context.Context) ([][]byte, error) {
 		appendRootKey := func(k, _ []byte) error {
 			// Only append when the key value is not encryptedKeyID.
 			if !bytes.Equal(k, encryptionKeyID) {
-				rootKeySlice = append(rootKeySlice, k)
+				// The bytes of k are valid only until the
+				// end of the transaction.
+				rootKeySlice = append(
+					rootKeySlice, append([]byte{}, k...),
+				)
 			}
 			return nil
 		}
-- 
2.43.0


From a248017ed9e8b64813cb7bbfcc6151d14afe0557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 11/42] fix: refuse to start when the macaroon store cannot be
 opened

The error was dropped, which left the service without a macaroon service:
every operator and wallet call was then served without any authentication.
---
 internal/interfaces/grpc/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 24e7206..9eb92e5 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -179,9 +179,13 @@ func NewService(opts ServiceOpts) (interfaces.Service, error) {
 
 	var macaroonSvc *macaroons.Service
 	if !opts.NoMacaroons {
-		macaroonSvc, _ = macaroons.NewService(
+		svc, err := macaroons.NewService(
 			opts.dbDatadir(), Location, DBFile, false, macaroons.IPLockChecker,
 		)
+		if err != nil {
+			return nil, fmt.Errorf("failed to open macaroon store: %s", err)
+		}
+		macaroonSvc = svc
 		if err := generateOperatorTLSKeyCert(
 			opts.tlsDatadir(), opts.OperatorExtraIPs, opts.OperatorExtraDomains,
 		); err != nil {
-- 
2.43.0


From d25ae02d422738cde3314ea936e454c68b3ecd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 12/42] fix: one circuit breaker per webhook endpoint

All endpoints shared one breaker: a few failures of one endpoint stopped the
delivery of events to all of them.
---
 .../infrastructure/pubsub/webhook/service.go  | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index c3f30d5..2306ca6 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/dgrijalva/jwt-go"
 	"github.com/sony/gobreaker"
@@ -17,7 +18,11 @@ import (
 type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
-	cb         *gobreaker.CircuitBreaker
+
+	// every endpoint has its own circuit breaker, so that a failing one does not
+	// prevent the others from being invoked.
+	cbMtx sync.Mutex
+	cbs   map[string]*gobreaker.CircuitBreaker
 }
 
 func NewWebhookPubSubService(
@@ -34,7 +39,7 @@ func NewWebhookPubSubService(
 	return &webhookService{
 		store:      webhookStore{store},
 		httpClient: httpClient,
-		cb:         circuitbreaker.NewCircuitBreaker(),
+		cbs:        make(map[string]*gobreaker.CircuitBreaker),
 	}, nil
 }
 
@@ -230,8 +235,22 @@ func (ws *webhookService) getSerializedHooks(actionType WebhookAction) [][]byte
 	return bytes.Split(hooks, separator)
 }
 
+func (ws *webhookService) circuitBreaker(
+	endpoint string,
+) *gobreaker.CircuitBreaker {
+	ws.cbMtx.Lock()
+	defer ws.cbMtx.Unlock()
+
+	cb, ok := ws.cbs[endpoint]
+	if !ok {
+		cb = circuitbreaker.NewCircuitBreaker()
+		ws.cbs[endpoint] = cb
+	}
+	return cb
+}
+
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-	_, err := ws.cb.Execute(func() (interface{}, error) {
+	_, err := ws.circuitBreaker(hook.Endpoint).Execute(func() (interface{}, error) {
 		headers := map[string]string{
 			"Content-Type": "application/json",
 		}
-- 
2.43.0


From b60d2bc493a97bf67074f131a7cc1215e306156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 13/42] fix: make changes of the registered webhooks exclusive
 and repeatable

Hooks registered at the same time could get lost, removing a hook that was
missing from its action's list removed another one, and a removal interrupted
halfway left a hook that could never be removed. Errors of the store were
ignored.
---
 .../infrastructure/pubsub/webhook/service.go  | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index 2306ca6..ebfcc3e 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -19,6 +19,10 @@ type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
 
+	// hooksMtx makes every change of the registered hooks, which involves more
+	// than one read and write of the store, exclusive.
+	hooksMtx sync.Mutex
+
 	// every endpoint has its own circuit breaker, so that a failing one does not
 	// prevent the others from being invoked.
 	cbMtx sync.Mutex
@@ -114,6 +118,9 @@ func (ws *webhookService) TopicsByLabel() map[string]ports.Topic {
 // NOTE: The generation of the hook ID can be assumed enough random to infer
 // that if 2 hooks have the same id, then they are the same.
 func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
+	ws.hooksMtx.Lock()
+	defer ws.hooksMtx.Unlock()
+
 	hookID := []byte(hook.ID)
 	hh, err := ws.store.db().GetFromBucket(hooksBucket, hookID)
 	if err != nil {
@@ -127,7 +134,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 	if err := ws.store.db().AddToBucket(hooksBucket, hookID, hook.Serialize()); err != nil {
 		return "", err
 	}
-	ws.addHookByAction(hook)
+	if err := ws.addHookByAction(hook); err != nil {
+		return "", err
+	}
 	return hook.ID, nil
 }
 
@@ -135,6 +144,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 // managed by the handler. Nothing is done in case the hook does not actually
 // exist in the handler's store.db().
 func (ws *webhookService) removeWebhook(hookID string) error {
+	ws.hooksMtx.Lock()
+	defer ws.hooksMtx.Unlock()
+
 	buf, err := ws.store.db().GetFromBucket(hooksBucket, []byte(hookID))
 	if err != nil {
 		return err
@@ -143,13 +155,16 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 		return nil
 	}
 
-	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
+	hook, err := NewWebhookFromBytes(buf)
+	if err != nil {
 		return err
 	}
-
-	hook, _ := NewWebhookFromBytes(buf)
-	ws.removeHookByAction(hook)
-	return nil
+	// The hook itself is removed at last, so that the operation can be repeated
+	// if it gets interrupted.
+	if err := ws.removeHookByAction(hook); err != nil {
+		return err
+	}
+	return ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID))
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
@@ -184,18 +199,18 @@ func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, mess
 	return eg.Wait()
 }
 
-func (ws *webhookService) addHookByAction(hook *Webhook) {
+func (ws *webhookService) addHookByAction(hook *Webhook) error {
 	key := []byte{byte(hook.ActionType)}
 	hooks := ws.getSerializedHooks(hook.ActionType)
 	hooks = append(hooks, hook.Serialize())
 	updatedHooks := bytes.Join(hooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
-func (ws *webhookService) removeHookByAction(hook *Webhook) {
+func (ws *webhookService) removeHookByAction(hook *Webhook) error {
 	rawHooks := ws.getSerializedHooks(hook.ActionType)
 
-	var index int
+	index := -1
 	for i, buf := range rawHooks {
 		hh, _ := NewWebhookFromBytes(buf)
 		if hh.ID == hook.ID {
@@ -204,16 +219,19 @@ func (ws *webhookService) removeHookByAction(hook *Webhook) {
 		}
 	}
 
+	if index < 0 {
+		return nil
+	}
+
 	key := []byte{byte(hook.ActionType)}
 	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
 
 	if len(rawHooks) <= 0 {
-		ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
-		return
+		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
 	}
 
 	updatedHooks := bytes.Join(rawHooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
 func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook {
-- 
2.43.0


From d2efe3198ff801eef7d7b6de0fee7199719458c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 14/42] fix: keep observing after an explorer error

The status of an observable was left to WAITING when the explorer returned an
error, and from then on it was skipped at every tick.
---
 pkg/crawler/observable.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index 2add166..e86dc5e 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -50,6 +50,9 @@ func (a *AddressObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// whatever the outcome, the observable must be processed again at next tick.
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -64,8 +67,6 @@ func (a *AddressObservable) Observe(
 	}
 	unspents := iUnspents.([]explorer.Utxo)
 
-	observableStatus.Set(Processed)
-
 	var eventType EventType
 	switch a.AccountIndex {
 	case domain.FeeAccount:
@@ -111,6 +112,9 @@ func (t *TransactionObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// whatever the outcome, the observable must be processed again at next tick.
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -135,8 +139,6 @@ func (t *TransactionObservable) Observe(
 		}
 	}
 
-	observableStatus.Set(Processed)
-
 	var confirmed bool
 	var blockHash string
 	var blockTime float64
-- 
2.43.0


From d98fd7259a9689d884b2d99db16b10fb2ba18667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 15/42] fix: stop observing safely at any time

Removing an observable right after adding it made the WaitGroup counter
negative, and stopping the crawler with observations in progress let them send
on the closed error channel: both crashed the daemon. Stopping twice or adding
an observable after stop did the same.
---
 pkg/crawler/observable.go | 13 ++++++++-----
 pkg/crawler/service.go    | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index e86dc5e..11b77bc 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -245,10 +245,16 @@ func newObservableHandler(
 
 func (oh *observableHandler) start() {
 	oh.logAction("start")
-	oh.wg.Add(1)
+	defer oh.wg.Done()
+	defer oh.ticker.Stop()
 	for {
 		select {
 		case <-oh.ticker.C:
+			select {
+			case <-oh.stopChan:
+				return
+			default:
+			}
 			if oh.observableStatus.Get() != Waiting {
 				oh.observable.Observe(
 					oh.explorerSvc,
@@ -259,8 +265,6 @@ func (oh *observableHandler) start() {
 				)
 			}
 		case <-oh.stopChan:
-			oh.ticker.Stop()
-			close(oh.stopChan)
 			return
 		}
 	}
@@ -268,8 +272,7 @@ func (oh *observableHandler) start() {
 
 func (oh *observableHandler) stop() {
 	oh.logAction("stop")
-	oh.stopChan <- 1
-	oh.wg.Done()
+	close(oh.stopChan)
 }
 
 func (oh *observableHandler) logAction(action string) {
diff --git a/pkg/crawler/service.go b/pkg/crawler/service.go
index fed4295..ee60a44 100644
--- a/pkg/crawler/service.go
+++ b/pkg/crawler/service.go
@@ -19,6 +19,7 @@ type blockchainCrawler struct {
 	errChan      chan error
 	eventChan    chan Event
 	observables  map[string]*observableHandler
+	stopped      bool
 	errorHandler func(err error)
 	mutex        *sync.RWMutex
 	wg           *sync.WaitGroup
@@ -69,13 +70,21 @@ func (bc *blockchainCrawler) Start() {
 	}
 }
 
-// Stop stops crawler
+// Stop stops crawler. It waits for all the observations in progress to be
+// completed before emitting the close event and closing the error channel.
 func (bc *blockchainCrawler) Stop() {
 	bc.mutex.Lock()
-	defer bc.mutex.Unlock()
-	for _, obsHandler := range bc.observables {
-		go obsHandler.stop()
+	if bc.stopped {
+		bc.mutex.Unlock()
+		return
+	}
+	bc.stopped = true
+	for key, obsHandler := range bc.observables {
+		obsHandler.stop()
+		delete(bc.observables, key)
 	}
+	bc.mutex.Unlock()
+
 	bc.wg.Wait()
 	bc.eventChan <- CloseEvent{}
 	close(bc.errChan)
@@ -96,6 +105,10 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 	bc.mutex.Lock()
 	defer bc.mutex.Unlock()
 
+	if bc.stopped {
+		return
+	}
+
 	if _, ok := bc.observables[observable.Key()]; !ok {
 		obsHandler := newObservableHandler(
 			observable,
@@ -108,6 +121,7 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 		)
 
 		bc.observables[observable.Key()] = obsHandler
+		bc.wg.Add(1)
 		go obsHandler.start()
 	}
 }
-- 
2.43.0


From dacf1f044bf340c4fec5ada0d29a3c72289d482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 16/42] fix: make repository updates atomic and refuse updating
 an unknown trade

---
 .../storage/db/badger/db_manager.go           | 25 +++++++++
 .../db/badger/market_repository_impl.go       | 52 ++++++++++++++-----
 .../db/badger/trade_repository_impl.go        | 31 +++++------
 .../db/badger/vault_repository_impl.go        | 26 +++++-----
 4 files changed, 90 insertions(+), 44 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 1bf012d..1ad326f 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -205,6 +205,31 @@ func isTransactionConflict(err error) bool {
 	return err == badger.ErrConflict
 }
 
+// atomically runs the given function within the transaction of the context, if
+// any. Otherwise, it creates a new one for the given store, and repeats the
+// function until it can be committed without conflicts.
+func atomically(
+	ctx context.Context,
+	store *badgerhold.Store,
+	fn func(ctx context.Context) error,
+) error {
+	if ctx.Value("tx") != nil {
+		return fn(ctx)
+	}
+
+	for {
+		tx := store.Badger().NewTransaction(true)
+		err := fn(context.WithValue(ctx, "tx", tx))
+		if err == nil {
+			err = tx.Commit()
+		}
+		tx.Discard()
+		if !isTransactionConflict(err) {
+			return err
+		}
+	}
+}
+
 // JSONEncode is a custom JSON based encoder for badger
 func JSONEncode(value interface{}) ([]byte, error) {
 	var buff bytes.Buffer
diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index bdf23a9..d556055 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -99,25 +99,45 @@ func (m marketRepositoryImpl) UpdateMarket(
 	accountIndex int,
 	updateFn func(m *domain.Market) (*domain.Market, error),
 ) error {
-	currentMarket, err := m.getMarket(ctx, accountIndex)
-	if err != nil {
-		return err
-	}
-	if currentMarket == nil {
-		return ErrMarketNotFound
-	}
+	return atomically(ctx, m.store, func(ctx context.Context) error {
+		currentMarket, err := m.getMarket(ctx, accountIndex)
+		if err != nil {
+			return err
+		}
+		if currentMarket == nil {
+			return ErrMarketNotFound
+		}
 
-	updatedMarket, err := updateFn(currentMarket)
-	if err != nil {
-		return err
-	}
+		updatedMarket, err := updateFn(currentMarket)
+		if err != nil {
+			return err
+		}
 
-	return m.updateMarket(ctx, accountIndex, *updatedMarket)
+		return m.updateMarket(ctx, accountIndex, *updatedMarket)
+	})
 }
 
 func (m marketRepositoryImpl) OpenMarket(
 	ctx context.Context,
 	quoteAsset string,
+) error {
+	return atomically(ctx, m.store, func(ctx context.Context) error {
+		return m.openMarket(ctx, quoteAsset)
+	})
+}
+
+func (m marketRepositoryImpl) CloseMarket(
+	ctx context.Context,
+	quoteAsset string,
+) error {
+	return atomically(ctx, m.store, func(ctx context.Context) error {
+		return m.closeMarket(ctx, quoteAsset)
+	})
+}
+
+func (m marketRepositoryImpl) openMarket(
+	ctx context.Context,
+	quoteAsset string,
 ) error {
 	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
 	markets, err := m.findMarkets(ctx, query)
@@ -145,7 +165,7 @@ func (m marketRepositoryImpl) OpenMarket(
 	return nil
 }
 
-func (m marketRepositoryImpl) CloseMarket(
+func (m marketRepositoryImpl) closeMarket(
 	ctx context.Context,
 	quoteAsset string,
 ) error {
@@ -220,7 +240,11 @@ func (m marketRepositoryImpl) insertMarket(
 	accountIndex int,
 	market *domain.Market,
 ) error {
-	var err error
+	// The price must be stored before the market, which cannot be read without.
+	err := m.updatePriceByAccountIndex(ctx, accountIndex, domain.Prices{})
+	if err != nil {
+		return err
+	}
 
 	if ctx.Value("tx") != nil {
 		tx := ctx.Value("tx").(*badger.Txn)
diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index 1230932..9f6136e 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -97,27 +97,22 @@ func (t tradeRepositoryImpl) UpdateTrade(
 	ID *uuid.UUID,
 	updateFn func(t *domain.Trade) (*domain.Trade, error),
 ) error {
-	txIsNotGiven := ctx.Value("tx") == nil
-
-	currentTrade, err := t.getTrade(ctx, *ID)
-	if err != nil {
-		return err
-	}
-
-	updatedTrade, err := updateFn(currentTrade)
-	if err != nil {
-		return err
-	}
+	return atomically(ctx, t.store, func(ctx context.Context) error {
+		currentTrade, err := t.getTrade(ctx, *ID)
+		if err != nil {
+			return err
+		}
+		if currentTrade == nil {
+			return ErrTradeNotFound
+		}
 
-	for {
-		err := t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+		updatedTrade, err := updateFn(currentTrade)
 		if err != nil {
-			if txIsNotGiven && isTransactionConflict(err) {
-				continue
-			}
+			return err
 		}
-		return err
-	}
+
+		return t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+	})
 }
 
 func (t tradeRepositoryImpl) getOrCreateTrade(
diff --git a/internal/infrastructure/storage/db/badger/vault_repository_impl.go b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
index d2f0b51..f790efc 100644
--- a/internal/infrastructure/storage/db/badger/vault_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
@@ -46,20 +46,22 @@ func (v vaultRepositoryImpl) UpdateVault(
 		defer v.updateLock.Unlock()
 	}
 
-	vault, err := v.getVault(ctx)
-	if err != nil {
-		return err
-	}
-	if vault == nil {
-		return ErrVaultNotFound
-	}
+	return atomically(ctx, v.store, func(ctx context.Context) error {
+		vault, err := v.getVault(ctx)
+		if err != nil {
+			return err
+		}
+		if vault == nil {
+			return ErrVaultNotFound
+		}
 
-	updatedVault, err := updateFn(vault)
-	if err != nil {
-		return err
-	}
+		updatedVault, err := updateFn(vault)
+		if err != nil {
+			return err
+		}
 
-	return v.updateVault(ctx, *updatedVault)
+		return v.updateVault(ctx, *updatedVault)
+	})
 }
 
 func (v vaultRepositoryImpl) GetAccountByIndex(
-- 
2.43.0


From b4cd22d888572d25c2bab217ebef0bb3ba1bb6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 17/42] fix: store a market's price before the market

---
 .../storage/db/badger/market_repository_impl.go             | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index d556055..2d05b59 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -258,12 +258,6 @@ func (m marketRepositoryImpl) insertMarket(
 		}
 	}
 
-	// Now we update the price store as well only if market insertion went ok
-	err = m.updatePriceByAccountIndex(ctx, accountIndex, domain.Prices{})
-	if err != nil {
-		return err
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 9f542cf3b6651416599fd41478a5920c92cf190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 18/42] fix: in-memory repositories returned wrong trades and
 dropped or half-updated records

---
 .../inmemory/market_memory_repository_impl.go | 20 ++++++++++++++
 .../inmemory/trade_memory_repository_impl.go  | 27 ++++++++++++-------
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
index f390bcb..d5b7371 100644
--- a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
@@ -117,6 +117,10 @@ func (r MarketRepositoryImpl) OpenMarket(_ context.Context, quoteAsset string) e
 		return err
 	}
 
+	if currentMarket == nil {
+		return nil
+	}
+
 	// We update the market status only if the market is closed.
 	if currentMarket.IsTradable() {
 		return nil
@@ -142,6 +146,10 @@ func (r MarketRepositoryImpl) CloseMarket(_ context.Context, quoteAsset string)
 		return err
 	}
 
+	if currentMarket == nil {
+		return nil
+	}
+
 	// We update the market status only if the market is open.
 	if !currentMarket.IsTradable() {
 		return nil
@@ -166,6 +174,10 @@ func (r *MarketRepositoryImpl) UpdatePrices(_ context.Context, accountIndex int,
 		return err
 	}
 
+	if market == nil {
+		return ErrMarketNotFound
+	}
+
 	err = market.ChangeBasePrice(prices.BasePrice)
 	if err != nil {
 		return err
@@ -183,6 +195,14 @@ func (r *MarketRepositoryImpl) DeleteMarket(
 	_ context.Context,
 	accountIndex int,
 ) error {
+	r.store.locker.Lock()
+	defer r.store.locker.Unlock()
+
+	if market, ok := r.store.markets[accountIndex]; ok {
+		if r.store.accountsByAsset[market.QuoteAsset] == accountIndex {
+			delete(r.store.accountsByAsset, market.QuoteAsset)
+		}
+	}
 	delete(r.store.markets, accountIndex)
 
 	return nil
diff --git a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
index 5f4fad2..a8153ef 100644
--- a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
@@ -74,7 +74,7 @@ func (r tradeRepositoryImpl) GetTradeByTxID(
 		}
 	}
 
-	return nil, nil
+	return nil, ErrTradeNotFound
 }
 
 func (r tradeRepositoryImpl) GetTradeBySwapAcceptID(_ context.Context, swapAcceptID string) (*domain.Trade, error) {
@@ -92,9 +92,9 @@ func (r tradeRepositoryImpl) UpdateTrade(
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	currentTrade, err := r.getOrCreateTrade(tradeID)
-	if err != nil {
-		return err
+	currentTrade := r.getTrade(tradeID)
+	if currentTrade == nil {
+		return ErrTradeNotFound
 	}
 
 	updatedTrade, err := updateFn(currentTrade)
@@ -115,12 +115,20 @@ func (r tradeRepositoryImpl) UpdateTrade(
 	return nil
 }
 
+func (r tradeRepositoryImpl) getTrade(tradeID *uuid.UUID) *domain.Trade {
+	if tradeID == nil {
+		return nil
+	}
+	tr, ok := r.store.trades[*tradeID]
+	if !ok {
+		return nil
+	}
+	return &tr
+}
+
 func (r tradeRepositoryImpl) getOrCreateTrade(tradeID *uuid.UUID) (*domain.Trade, error) {
-	if tradeID != nil {
-		tr, ok := r.store.trades[*tradeID]
-		if ok {
-			return &tr, nil
-		}
+	if tr := r.getTrade(tradeID); tr != nil {
+		return tr, nil
 	}
 
 	trade := domain.NewTrade()
@@ -134,6 +142,7 @@ func (r tradeRepositoryImpl) getOrCreateTrade(tradeID *uuid.UUID) (*domain.Trade
 func (r tradeRepositoryImpl) getAllTrades() ([]*domain.Trade, error) {
 	allTrades := make([]*domain.Trade, 0)
 	for _, trade := range r.store.trades {
+		trade := trade
 		allTrades = append(allTrades, &trade)
 	}
 	return allTrades, nil
-- 
2.43.0


From 792af46598f3254849da5ed41c1c4788bea223b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 19/42] fix: let a unit of work run again and roll back every
 store

---
 .../infrastructure/storage/db/uow/unit_of_work.go   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/infrastructure/storage/db/uow/unit_of_work.go b/internal/infrastructure/storage/db/uow/unit_of_work.go
index 559a726..de0d757 100644
--- a/internal/infrastructure/storage/db/uow/unit_of_work.go
+++ b/internal/infrastructure/storage/db/uow/unit_of_work.go
@@ -54,18 +54,25 @@ func (u *UnitOfWork) Context(repository interface{}) context.Context {
 func (u *UnitOfWork) Run(fn func(Contextual) error) (err error) {
 	txs := make([]Tx, 0, len(u.repositories))
 
+	// the transactions of a previous run are over
+	u.contexts = map[interface{}]interface{}{}
+
 	defer func() {
 		if err == nil {
 			return
 		}
+		// a failure must not prevent the other transactions to be rolled back
+		var rollbackErr error
 		for _, tx := range txs {
-			if _err := tx.Rollback(); _err != nil {
+			if _err := tx.Rollback(); _err != nil && rollbackErr == nil {
 				// TODO: handle rollback failure
 				// - Shall we try to rollback again?
-				err = _err
-				return
+				rollbackErr = _err
 			}
 		}
+		if rollbackErr != nil {
+			err = rollbackErr
+		}
 	}()
 
 	defer func() {
-- 
2.43.0


From a6c0b8d0b6a4b38df408fdd1069a1da039027ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 20/42] fix: reserve the coins of an accepted trade before any
 other proposal can select them

The coins were selected, and then locked, with nothing preventing concurrent
proposals from selecting them in between, and the vault read before filling
the proposal was written back later, losing what had happened to it in the
meanwhile. The trade and the vault were persisted after the reply, if at all.
---
 internal/core/application/trade_service.go | 256 +++++++++++++--------
 1 file changed, 154 insertions(+), 102 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f912673..3b54fae 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -46,6 +47,10 @@ type TradeService interface {
 	) (*BalanceWithFee, error)
 }
 
+// coinsLock is held from the selection of coins of the wallet until they are
+// either locked or spent, so that the same coin can't be selected twice.
+var coinsLock sync.Mutex
+
 type tradeService struct {
 	repoManager        ports.RepoManager
 	explorerSvc        explorer.Service
@@ -298,6 +303,10 @@ func (t *tradeService) TradePropose(
 		return nil, nil, 0, ErrMarketNotExist
 	}
 
+	// nobody else can select the same coins until those of this trade are locked
+	coinsLock.Lock()
+	defer coinsLock.Unlock()
+
 	// get all unspents for market account (both as []domain.Unspents and as
 	// []explorer.Utxo)along with private blinding keys and signing derivation
 	// paths for respectively unblinding and signing them later
@@ -326,15 +335,7 @@ func (t *tradeService) TradePropose(
 	}
 
 	// parse swap proposal and possibly accept
-	var swapAccept domain.SwapAccept
-	var swapFail domain.SwapFail
-	var swapExpiryTime uint64
-
 	var fillProposalResult *FillProposalResult
-	var outInfo *domain.AddressInfo
-	var changeInfo *domain.AddressInfo
-	var feeChangeInfo *domain.AddressInfo
-	var mnemonic []string
 
 	trade := domain.NewTrade()
 	if ok, _ := trade.Propose(
@@ -344,119 +345,170 @@ func (t *tradeService) TradePropose(
 		mkt.FixedFee.BaseFee,
 		mkt.FixedFee.QuoteFee,
 		nil,
-	); !ok {
-		swapFail = trade.SwapFailMessage()
-		goto end
+	); ok {
+		if isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
+			fillProposalResult, err = t.acceptTrade(
+				trade, swapRequest, marketAccountIndex,
+				marketInfo, marketUnspents, feeInfo, feeUnspents,
+			)
+			if err != nil {
+				log.WithError(err).Warn("unable to persist accepted trade")
+				return nil, nil, 0, ErrServiceUnavailable
+			}
+		} else {
+			trade.Fail(
+				swapRequest.GetId(),
+				int(pkgswap.ErrCodeInvalidSwapRequest),
+				"bad pricing",
+			)
+		}
 	}
 
-	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
-		trade.Fail(
-			swapRequest.GetId(),
-			int(pkgswap.ErrCodeInvalidSwapRequest),
-			"bad pricing",
-		)
-		swapFail = trade.SwapFailMessage()
-		goto end
-	}
-
-	// derive output and change address for market, and change address for fee account
-	outInfo, _ = vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
-	changeInfo, _ = vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
-	feeChangeInfo, _ = vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-
-	mnemonic, _ = vault.GetMnemonicSafe()
-	fillProposalResult, err = TradeManager.FillProposal(FillProposalOpts{
-		Mnemonic:      mnemonic,
-		SwapRequest:   swapRequest,
-		MarketUtxos:   marketUnspents.ToUtxos(),
-		FeeUtxos:      feeUnspents.ToUtxos(),
-		MarketInfo:    marketInfo,
-		FeeInfo:       feeInfo,
-		OutputInfo:    *outInfo,
-		ChangeInfo:    *changeInfo,
-		FeeChangeInfo: *feeChangeInfo,
-		Network:       t.network,
-	})
+	if trade.IsRejected() {
+		swapFail := trade.SwapFailMessage()
+		log.WithField("reason", swapFail.GetFailureMessage()).Infof("trade with id %s rejected", trade.ID)
+
+		if err := t.persistTrade(context.Background(), trade); err != nil {
+			log.WithError(err).Warn("unable to persist rejected trade")
+		}
+		return nil, swapFail, 0, nil
+	}
+
+	log.Infof("trade with id %s accepted", trade.ID)
+
+	selectedUnspentKeys := getUnspentKeys(fillProposalResult.SelectedUnspents)
+	lockedUnspents, err := t.repoManager.UnspentRepository().LockUnspents(
+		context.Background(),
+		selectedUnspentKeys,
+		trade.ID,
+	)
 	if err != nil {
+		log.WithError(err).Warn("unable to lock unspents of accepted trade")
 		trade.Fail(
 			swapRequest.GetId(),
 			int(pkgswap.ErrCodeRejectedSwapRequest),
-			err.Error(),
+			"unable to lock unspents",
 		)
-		swapFail = trade.SwapFailMessage()
-		goto end
+		if err := t.persistTrade(context.Background(), trade); err != nil {
+			log.WithError(err).Warn("unable to persist rejected trade")
+		}
+		return nil, nil, 0, ErrServiceUnavailable
 	}
+	log.Debugf("locked %d unspents", lockedUnspents)
 
-	if ok, _ := trade.Accept(
-		fillProposalResult.PsetBase64,
-		fillProposalResult.InputBlindingKeys,
-		fillProposalResult.OutputBlindingKeys,
-		uint64(t.expiryDuration.Seconds()),
-	); !ok {
-		swapFail = trade.SwapFailMessage()
-		goto end
-	}
+	t.blockchainListener.StartObserveTx(trade.TxID)
 
-	swapAccept = trade.SwapAcceptMessage()
-	swapExpiryTime = trade.ExpiryTime
+	// set timer for trade expiration
+	go func() {
+		// admit a tollerance of 1 minute past the expiration time.
+		time.Sleep(t.expiryDuration + time.Minute)
+		t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
+	}()
 
-end:
-	var selectedUnspentKeys []domain.UnspentKey
+	return trade.SwapAcceptMessage(), nil, trade.ExpiryTime, nil
+}
 
-	if swapAccept != nil {
-		log.Infof("trade with id %s accepted", trade.ID)
+// acceptTrade fills the proposal of the given trade with coins of the market
+// and fee accounts and brings the trade to the accepted status, or it makes it
+// fail if the proposal can't be filled.
+// The addresses of the outputs added to the swap transaction are derived and
+// stored together with the accepted trade, or not at all.
+func (t *tradeService) acceptTrade(
+	trade *domain.Trade,
+	swapRequest domain.SwapRequest,
+	marketAccountIndex int,
+	marketInfo domain.AddressesInfo,
+	marketUnspents Unspents,
+	feeInfo domain.AddressesInfo,
+	feeUnspents Unspents,
+) (*FillProposalResult, error) {
+	proposal := *trade
+	var fillProposalResult *FillProposalResult
+	errRejected := errors.New("proposal rejected")
 
-		selectedUnspentKeys = getUnspentKeys(fillProposalResult.SelectedUnspents)
-		lockedUnspents, _ := t.repoManager.UnspentRepository().LockUnspents(
-			ctx,
-			selectedUnspentKeys,
-			trade.ID,
-		)
-		log.Debugf("locked %d unspents", lockedUnspents)
-
-		// set timer for trade expiration
-		go func() {
-			// admit a tollerance of 1 minute past the expiration time.
-			time.Sleep(t.expiryDuration + time.Minute)
-			t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
-		}()
-	} else {
-		log.WithField("reason", swapFail.GetFailureMessage()).Infof("trade with id %s rejected", trade.ID)
-	}
+	// this can be executed more than once in case of conflicts at repository
+	// level, thus it always starts from the proposal.
+	fillAndAccept := func(vault *domain.Vault) (*domain.Vault, error) {
+		*trade = proposal
 
-	go func() {
-		if _, err := t.repoManager.RunTransaction(
-			context.Background(),
-			false,
-			func(ctx context.Context) (interface{}, error) {
-				if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
-					return nil, err
-				}
-				if err := t.repoManager.TradeRepository().UpdateTrade(ctx, &trade.ID, func(_ *domain.Trade) (*domain.Trade, error) {
-					return trade, nil
-				}); err != nil {
-					return nil, err
-				}
+		mnemonic, err := vault.GetMnemonicSafe()
+		if err != nil {
+			return nil, err
+		}
+		// derive output and change address for market, and change address for fee account
+		outInfo, err := vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
+		if err != nil {
+			return nil, err
+		}
+		changeInfo, err := vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
+		if err != nil {
+			return nil, err
+		}
+		feeChangeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+		if err != nil {
+			return nil, err
+		}
 
-				if swapAccept != nil {
-					if err := t.repoManager.VaultRepository().UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) {
-						return vault, nil
-					}); err != nil {
-						return nil, err
-					}
-				}
-				return nil, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to persist changes after trade is accepted")
+		fillProposalResult, err = TradeManager.FillProposal(FillProposalOpts{
+			Mnemonic:      mnemonic,
+			SwapRequest:   swapRequest,
+			MarketUtxos:   marketUnspents.ToUtxos(),
+			FeeUtxos:      feeUnspents.ToUtxos(),
+			MarketInfo:    marketInfo,
+			FeeInfo:       feeInfo,
+			OutputInfo:    *outInfo,
+			ChangeInfo:    *changeInfo,
+			FeeChangeInfo: *feeChangeInfo,
+			Network:       t.network,
+		})
+		if err != nil {
+			trade.Fail(
+				swapRequest.GetId(),
+				int(pkgswap.ErrCodeRejectedSwapRequest),
+				err.Error(),
+			)
+			return nil, errRejected
 		}
 
-		if swapAccept != nil {
-			t.blockchainListener.StartObserveTx(trade.TxID)
+		ok, err := trade.Accept(
+			fillProposalResult.PsetBase64,
+			fillProposalResult.InputBlindingKeys,
+			fillProposalResult.OutputBlindingKeys,
+			uint64(t.expiryDuration.Seconds()),
+		)
+		if err != nil {
+			return nil, err
 		}
-	}()
+		if !ok {
+			return nil, errRejected
+		}
+		return vault, nil
+	}
+
+	if _, err := t.repoManager.RunTransaction(
+		context.Background(),
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			if err := t.repoManager.VaultRepository().UpdateVault(ctx, fillAndAccept); err != nil {
+				return nil, err
+			}
+			return nil, t.persistTrade(ctx, trade)
+		},
+	); err != nil && !errors.Is(err, errRejected) {
+		return nil, err
+	}
+	return fillProposalResult, nil
+}
 
-	return swapAccept, swapFail, swapExpiryTime, nil
+func (t *tradeService) persistTrade(ctx context.Context, trade *domain.Trade) error {
+	if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
+		return err
+	}
+	return t.repoManager.TradeRepository().UpdateTrade(
+		ctx,
+		&trade.ID,
+		func(_ *domain.Trade) (*domain.Trade, error) { return trade, nil },
+	)
 }
 
 // TradeComplete is the domain controller for the TradeComplete RPC
-- 
2.43.0


From d3199856190e01d8e7a5c0be65987b08dc5ac98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 21/42] fix: refuse proposals whose assets don't match the
 market and the trade type

---
 internal/core/application/trade_service.go | 24 ++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 3b54fae..ae8d73d 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -299,7 +299,7 @@ func (t *tradeService) TradePropose(
 		log.Debugf("error while retrieving market: %s", err)
 		return nil, nil, 0, ErrServiceUnavailable
 	}
-	if marketAccountIndex < 0 {
+	if marketAccountIndex < 0 || mkt.BaseAsset != market.BaseAsset {
 		return nil, nil, 0, ErrMarketNotExist
 	}
 
@@ -346,7 +346,13 @@ func (t *tradeService) TradePropose(
 		mkt.FixedFee.QuoteFee,
 		nil,
 	); ok {
-		if isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
+		if !isValidTradePair(swapRequest, tradeType, mkt) {
+			trade.Fail(
+				swapRequest.GetId(),
+				int(pkgswap.ErrCodeInvalidSwapRequest),
+				"assets not matching market and trade type",
+			)
+		} else if isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
 			fillProposalResult, err = t.acceptTrade(
 				trade, swapRequest, marketAccountIndex,
 				marketInfo, marketUnspents, feeInfo, feeUnspents,
@@ -933,6 +939,20 @@ func getBalanceByAsset(unspents []domain.Unspent) map[string]uint64 {
 	return balances
 }
 
+// isValidTradePair checks that the swap trades the assets of the market, in the
+// direction of the given trade type.
+func isValidTradePair(
+	swapRequest domain.SwapRequest,
+	tradeType int,
+	market *domain.Market,
+) bool {
+	assetP, assetR := market.QuoteAsset, market.BaseAsset
+	if tradeType == TradeSell {
+		assetP, assetR = assetR, assetP
+	}
+	return swapRequest.GetAssetP() == assetP && swapRequest.GetAssetR() == assetR
+}
+
 // isValidPrice checks that the amounts of the trade are valid by
 // making a preview of each counter amounts of the swap given the
 // current price of the market.
-- 
2.43.0


From 01c68eb478717c112f37e1682cf34e1bcf54993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 22/42] fix: complete and abort only the trades that can be,
 one operation at a time

An empty completion crashed the service, as did aborting an unknown trade; an
empty id matched any proposal. A completed or settled trade could be aborted,
which unlocked its coins. The outcome of a completion was persisted after the
reply, overwriting whatever happened to the trade in the meanwhile.
---
 internal/core/application/trade_service.go | 78 ++++++++++++++++------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index ae8d73d..8c60404 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -59,6 +59,8 @@ type tradeService struct {
 	expiryDuration     time.Duration
 	priceSlippage      decimal.Decimal
 	network            *network.Network
+	// tradesLock serializes completion, abortion and expiration of trades
+	tradesLock *sync.Mutex
 }
 
 func NewTradeService(
@@ -98,6 +100,7 @@ func newTradeService(
 		expiryDuration:     expiryDuration,
 		priceSlippage:      priceSlippage,
 		network:            net,
+		tradesLock:         &sync.Mutex{},
 	}
 }
 
@@ -531,6 +534,9 @@ func (t *tradeService) TradeComplete(
 		}
 		return "", swapFailMsg, nil
 	}
+	if swapComplete == nil {
+		return "", nil, errors.New("either swap complete or swap fail message is required")
+	}
 
 	return t.tradeComplete(ctx, *swapComplete)
 }
@@ -539,7 +545,10 @@ func (t *tradeService) tradeComplete(
 	ctx context.Context,
 	swapComplete domain.SwapComplete,
 ) (txID string, swapFail domain.SwapFail, err error) {
-	trade, err := t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapComplete.GetAcceptId())
+	t.tradesLock.Lock()
+	defer t.tradesLock.Unlock()
+
+	trade, err := t.getTradeBySwapAcceptID(ctx, swapComplete.GetAcceptId())
 	if err != nil {
 		return
 	}
@@ -573,23 +582,28 @@ func (t *tradeService) tradeComplete(
 	txID = res.TxID
 	log.Infof("trade with id %s broadcasted: %s", trade.ID, txID)
 
-	// we make sure that any problem happening at this point
-	// is not influencing the trade therefore we run as goroutine
-	// this method will take care to retry to handle potential
-	// datastore conflicts (if any) at repository level
-	go func() {
-		if err := t.repoManager.TradeRepository().UpdateTrade(
-			ctx,
-			&trade.ID,
-			func(previousTrade *domain.Trade) (*domain.Trade, error) { return trade, nil },
-		); err != nil {
-			log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
-		}
+	// any problem happening at this point must not influence the trade since the
+	// transaction has been broadcasted.
+	if err := t.repoManager.TradeRepository().UpdateTrade(
+		context.Background(),
+		&trade.ID,
+		func(previousTrade *domain.Trade) (*domain.Trade, error) {
+			// the transaction can be confirmed in the meantime
+			if previousTrade.IsSettled() {
+				return previousTrade, nil
+			}
+			return trade, nil
+		},
+	); err != nil {
+		log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
+	}
 
-		_, accountIndex, _ := t.repoManager.MarketRepository().GetMarketByAsset(
-			ctx,
-			trade.MarketQuoteAsset,
-		)
+	if _, accountIndex, err := t.repoManager.MarketRepository().GetMarketByAsset(
+		context.Background(),
+		trade.MarketQuoteAsset,
+	); err != nil {
+		log.WithError(err).Warn("unable to retrieve market of completed trade")
+	} else {
 		extractUnspentsFromTxAndUpdateUtxoSet(
 			t.repoManager.UnspentRepository(),
 			t.repoManager.VaultRepository(),
@@ -597,7 +611,7 @@ func (t *tradeService) tradeComplete(
 			res.TxHex,
 			accountIndex,
 		)
-	}()
+	}
 
 	return
 }
@@ -606,17 +620,27 @@ func (t *tradeService) tradeFail(
 	ctx context.Context,
 	swapFail domain.SwapFail,
 ) (domain.SwapFail, error) {
+	t.tradesLock.Lock()
+	defer t.tradesLock.Unlock()
+
 	swapID := swapFail.GetMessageId()
-	trade, err := t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapID)
+	trade, err := t.getTradeBySwapAcceptID(ctx, swapID)
 	if err != nil {
 		return nil, err
 	}
+	if trade == nil {
+		return nil, fmt.Errorf("trade with swap id %s not found", swapID)
+	}
 
 	tradeID := trade.ID
 	if err := t.repoManager.TradeRepository().UpdateTrade(
 		ctx,
 		&tradeID,
 		func(trade *domain.Trade) (*domain.Trade, error) {
+			// once completed, a trade can't be aborted anymore
+			if !trade.IsAccepted() {
+				return nil, domain.ErrTradeMustBeAccepted
+			}
 			trade.Fail(
 				swapID,
 				int(pkgswap.ErrCodeFailedToComplete),
@@ -628,12 +652,24 @@ func (t *tradeService) tradeFail(
 		return nil, err
 	}
 
-	go t.unlockUnspentsForTrade(trade)
-	go t.blockchainListener.StopObserveTx(trade.TxID)
+	t.blockchainListener.StopObserveTx(trade.TxID)
+	t.unlockUnspentsForTrade(trade)
 
 	return swapFail, nil
 }
 
+// getTradeBySwapAcceptID returns the trade with the given swap accept id, that
+// can't be empty since that's the one of all those trades not yet accepted.
+func (t *tradeService) getTradeBySwapAcceptID(
+	ctx context.Context,
+	swapAcceptID string,
+) (*domain.Trade, error) {
+	if swapAcceptID == "" {
+		return nil, nil
+	}
+	return t.repoManager.TradeRepository().GetTradeBySwapAcceptID(ctx, swapAcceptID)
+}
+
 func (t *tradeService) getInfoAndUnspentsForAccount(
 	ctx context.Context,
 	account int,
-- 
2.43.0


From 32683178c48cbced76b059b339b6fb8702791906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 23/42] fix: complete a trade only with the accepted
 transaction

Any valid transaction was taken as the completion of a swap, broadcasted and
stored as the one of the trade.
---
 pkg/swap/complete.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 1888bcd..e50d54d 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -26,6 +26,7 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		return "", nil, fmt.Errorf("unmarshal swap accept %w", err)
 	}
 
+	var tx *transaction.Transaction
 	if !isHex(complete.Transaction) {
 		ptx, err := pset.NewPsetFromBase64(complete.Transaction)
 		if err != nil {
@@ -39,12 +40,22 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		if !ok {
 			return "", nil, fmt.Errorf("transaction contains invalid signatures")
 		}
+		tx = ptx.UnsignedTx
 	} else {
-		if _, err := transaction.NewTxFromHex(complete.Transaction); err != nil {
+		tx, err = transaction.NewTxFromHex(complete.Transaction)
+		if err != nil {
 			return "", nil, fmt.Errorf("transaction in hex format is invalid")
 		}
 	}
 
+	acceptedPtx, err := pset.NewPsetFromBase64(msgAccept.GetTransaction())
+	if err != nil {
+		return "", nil, fmt.Errorf("accepted transaction is invalid: %w", err)
+	}
+	if unsignedTxHash(tx) != unsignedTxHash(acceptedPtx.UnsignedTx) {
+		return "", nil, fmt.Errorf("transaction is not the accepted one")
+	}
+
 	randomID := randstr.Hex(8)
 	msgComplete := &pb.SwapComplete{
 		Id:          randomID,
@@ -119,6 +130,16 @@ func ValidateCompletePset(opts ValidateCompletePsetOpts) error {
 	return nil
 }
 
+// unsignedTxHash returns the hash of the given transaction regardless of any
+// signature.
+func unsignedTxHash(tx *transaction.Transaction) string {
+	unsignedTx := tx.Copy()
+	for _, in := range unsignedTx.Inputs {
+		in.Script = nil
+	}
+	return unsignedTx.TxHash().String()
+}
+
 func isHex(s string) bool {
 	_, err := hex.DecodeString(s)
 	return err == nil
-- 
2.43.0


From b7fd4242efa1fb599b5a1d4641303a6a1f737375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 24/42] fix: expire pending trades, and only those, even if the
 service is restarted

The expiration timers and the watched transactions of the pending trades were
lost at restart, leaving their coins locked forever. The expiration of a
completed trade unlocked its coins and stopped watching its transaction.
Aborted and expired trades unlocked also coins reserved by other trades.
---
 internal/core/application/trade_service.go | 127 +++++++++++++--------
 1 file changed, 77 insertions(+), 50 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 8c60404..3d66661 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -8,17 +8,16 @@ import (
 	"sync"
 	"time"
 
+	"github.com/google/uuid"
 	"github.com/shopspring/decimal"
 	log "github.com/sirupsen/logrus"
 	"github.com/tdex-network/tdex-daemon/internal/core/domain"
 	"github.com/tdex-network/tdex-daemon/internal/core/ports"
-	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
 	pkgswap "github.com/tdex-network/tdex-daemon/pkg/swap"
 	"github.com/tdex-network/tdex-daemon/pkg/transactionutil"
 	"github.com/tdex-network/tdex-daemon/pkg/wallet"
 	"github.com/vulpemventures/go-elements/network"
-	"github.com/vulpemventures/go-elements/pset"
 )
 
 type TradeService interface {
@@ -72,7 +71,7 @@ func NewTradeService(
 	priceSlippage decimal.Decimal,
 	net *network.Network,
 ) TradeService {
-	return newTradeService(
+	svc := newTradeService(
 		repoManager,
 		explorerSvc,
 		bcListener,
@@ -81,6 +80,8 @@ func NewTradeService(
 		priceSlippage,
 		net,
 	)
+	svc.resumeTrades()
+	return svc
 }
 
 func newTradeService(
@@ -408,11 +409,7 @@ func (t *tradeService) TradePropose(
 	t.blockchainListener.StartObserveTx(trade.TxID)
 
 	// set timer for trade expiration
-	go func() {
-		// admit a tollerance of 1 minute past the expiration time.
-		time.Sleep(t.expiryDuration + time.Minute)
-		t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
-	}()
+	go t.waitForTradeExpiration(trade.ID, trade.ExpiryTime)
 
 	return trade.SwapAcceptMessage(), nil, trade.ExpiryTime, nil
 }
@@ -691,15 +688,13 @@ func (t *tradeService) getInfoAndUnspentsForAccount(
 	return info, Unspents(unspents), nil
 }
 
+// unlockUnspentsForTrade unlocks the unspents locked by the given trade, not
+// those that in the meanwhile have been locked by another one.
 func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
-	p, _ := pset.NewPsetFromBase64(trade.PsetBase64)
-	keyLen := len(p.Inputs)
-	unspentKeys := make([]domain.UnspentKey, keyLen, keyLen)
-
-	for i, in := range p.UnsignedTx.Inputs {
-		unspentKeys[i] = domain.UnspentKey{
-			TxID: bufferutil.TxIDFromBytes(in.Hash),
-			VOut: in.Index,
+	unspentKeys := make([]domain.UnspentKey, 0)
+	for _, u := range t.repoManager.UnspentRepository().GetAllUnspents(context.Background()) {
+		if u.IsLocked() && u.LockedBy != nil && *u.LockedBy == trade.ID {
+			unspentKeys = append(unspentKeys, u.Key())
 		}
 	}
 
@@ -718,46 +713,78 @@ func (t *tradeService) unlockUnspentsForTrade(trade *domain.Trade) {
 	log.Debugf("unlocked %d unspents", count)
 }
 
-func (t *tradeService) checkTradeExpiration(
-	tradeTxID string,
-	selectedUnspentKeys []domain.UnspentKey,
-) {
-	ctx := context.Background()
+// waitForTradeExpiration checks the trade with the given id once its expiration
+// time has passed.
+func (t *tradeService) waitForTradeExpiration(tradeID uuid.UUID, expiryTime uint64) {
+	// admit a tollerance of 1 minute past the expiration time.
+	time.Sleep(time.Until(time.Unix(int64(expiryTime), 0).Add(time.Minute)))
+	t.checkTradeExpiration(tradeID)
+}
+
+func (t *tradeService) checkTradeExpiration(tradeID uuid.UUID) {
+	t.tradesLock.Lock()
+	defer t.tradesLock.Unlock()
 
 	// if the trade is expired it's required to unlock the unspents used as input
-	// and to bring the trade to failed status
-	trade, _ := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	// and to bring the trade to failed status. A trade that has been completed is
+	// just waiting for its transaction to be confirmed.
+	var expiredTrade *domain.Trade
+	if err := t.repoManager.TradeRepository().UpdateTrade(
+		context.Background(),
+		&tradeID,
+		func(tt *domain.Trade) (*domain.Trade, error) {
+			expiredTrade = nil
+			if !tt.IsAccepted() {
+				return tt, nil
+			}
+			if _, err := tt.Expire(); err != nil {
+				return nil, err
+			}
+			expiredTrade = tt
+			return tt, nil
+		},
+	); err != nil {
+		log.WithError(err).Warnf("unable to persist expiration of trade with id %s", tradeID)
+		return
+	}
+	if expiredTrade == nil {
+		return
+	}
 
-	if trade.IsExpired() {
-		t.blockchainListener.StopObserveTx(trade.TxID)
+	t.blockchainListener.StopObserveTx(expiredTrade.TxID)
+	t.unlockUnspentsForTrade(expiredTrade)
+	log.Infof("trade with id %s expired", tradeID)
+}
 
-		count, err := t.repoManager.UnspentRepository().UnlockUnspents(ctx, selectedUnspentKeys)
-		if err != nil {
-			log.WithError(err).Warnf(
-				"trade with id %s has expired but an error occured while "+
-					"unlocking its unspents. You must run ReloadUtxo RPC as soon as "+
-					"possible to restore the utxo set of the internal wallet",
-				trade.ID,
-			)
-			return
+// resumeTrades gets back to follow the trades that were pending when the
+// service was stopped.
+func (t *tradeService) resumeTrades() {
+	trades, err := t.repoManager.TradeRepository().GetAllTrades(context.Background())
+	if err != nil {
+		log.WithError(err).Warn("unable to resume pending trades")
+		return
+	}
+
+	lockers := make(map[uuid.UUID]bool)
+	for _, u := range t.repoManager.UnspentRepository().GetAllUnspents(context.Background()) {
+		if u.IsLocked() && u.LockedBy != nil {
+			lockers[*u.LockedBy] = true
 		}
-		log.Debugf("unlocked %d unspents", count)
-
-		if err := t.repoManager.TradeRepository().UpdateTrade(
-			ctx,
-			&trade.ID,
-			func(tt *domain.Trade) (*domain.Trade, error) {
-				if _, err := tt.Expire(); err != nil {
-					return nil, err
-				}
-				return tt, nil
-			},
-		); err != nil {
-			log.Warnf("unable to persist expiration of trade with id %s", trade.ID)
-			return
+	}
+
+	for _, trade := range trades {
+		if trade.IsRejected() {
+			if lockers[trade.ID] {
+				t.unlockUnspentsForTrade(trade)
+			}
+			continue
+		}
+		if trade.IsAccepted() || trade.IsCompleted() {
+			t.blockchainListener.StartObserveTx(trade.TxID)
+		}
+		if trade.IsAccepted() {
+			go t.waitForTradeExpiration(trade.ID, trade.ExpiryTime)
 		}
-		log.Infof("trade with id %s expired", trade.ID)
-		return
 	}
 }
 
-- 
2.43.0


From 02252bdfeb1a551d636d02545c40a0b74e3be50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 25/42] fix: settle a trade and update the utxo set once per
 confirmed transaction

A repeated confirmation settled and published the trade again, the inputs of
the transaction were not marked as spent if its outputs were already known, and
a failed update of the utxo set was never retried. Transactions with witnesses
not made of a signature and a public key crashed the service.
---
 .../core/application/blockchain_listener.go   | 72 ++++++++++---------
 internal/core/application/types.go            |  7 +-
 2 files changed, 43 insertions(+), 36 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 3ab7652..6daaa94 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -171,17 +171,20 @@ func (b *blockchainListener) listenToEventChannel() {
 				break
 			}
 
-			if err := b.settleTrade(&trade.ID, e); err != nil {
-				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
-				break
-			}
+			// the trade is settled for last, so that if anything goes wrong with the
+			// utxo set the event can be handled again.
 			if err := b.confirmOrAddUnspents(e.TxHex, e.TxID, trade.MarketQuoteAsset); err != nil {
 				log.Warnf("trying to confirm or add unspents: %v", err)
 				break
 			}
+			settled, err := b.settleTrade(&trade.ID, e)
+			if err != nil {
+				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
+				break
+			}
 
 			// Publish message for topic TradeSettled to pubsub service.
-			if b.pubsubSvc != nil {
+			if settled && b.pubsubSvc != nil {
 				go func() {
 					ctx := context.Background()
 					mkt, mktAccount, err := b.repoManager.MarketRepository().GetMarketByAsset(
@@ -191,6 +194,10 @@ func (b *blockchainListener) listenToEventChannel() {
 						log.WithError(err).Warn("an error occured while retrieving market")
 						return
 					}
+					if mkt == nil {
+						log.Warnf("market of settled trade with id %s not found", trade.ID)
+						return
+					}
 
 					info, err := b.repoManager.VaultRepository().GetAllDerivedAddressesInfoForAccount(
 						ctx, mktAccount,
@@ -267,11 +274,17 @@ func (b *blockchainListener) startPendingObservables() {
 	b.pendingObservables = nil
 }
 
-func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
+// settleTrade settles the trade and returns whether it wasn't already.
+func (b *blockchainListener) settleTrade(
+	tradeID *uuid.UUID,
+	event crawler.TransactionEvent,
+) (bool, error) {
+	var settled bool
 	if err := b.repoManager.TradeRepository().UpdateTrade(
 		context.Background(),
 		tradeID,
 		func(t *domain.Trade) (*domain.Trade, error) {
+			settled = !t.IsSettled()
 			mustAddTxHex := t.IsAccepted()
 			if _, err := t.Settle(uint64(event.BlockTime)); err != nil {
 				return nil, err
@@ -283,11 +296,11 @@ func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.Trans
 			return t, nil
 		},
 	); err != nil {
-		return err
+		return false, err
 	}
 
 	log.Infof("trade with id %s settled", tradeID)
-	return nil
+	return settled, nil
 }
 
 func (b *blockchainListener) confirmOrAddUnspents(
@@ -311,37 +324,28 @@ func (b *blockchainListener) confirmOrAddUnspents(
 		return err
 	}
 
-	uLen := len(unspentsToAdd)
-	unspentAddresses := make([]string, uLen, uLen)
-	for i, u := range unspentsToAdd {
-		unspentAddresses[i] = u.Address
+	// those unspents already in the utxo set are left as they are when added, and
+	// then all get confirmed.
+	unspentRepo := b.repoManager.UnspentRepository()
+	unspentKeys := make([]domain.UnspentKey, len(unspentsToAdd))
+	for i := range unspentsToAdd {
+		unspentsToAdd[i].Confirmed = true
+		unspentKeys[i] = unspentsToAdd[i].Key()
 	}
-
-	u, err := b.repoManager.UnspentRepository().GetAllUnspentsForAddresses(ctx, unspentAddresses)
-	if err != nil {
+	if err := addUnspents(unspentRepo, unspentsToAdd); err != nil {
 		return err
 	}
-	if len(u) > 0 {
-		unspentKeys := make([]domain.UnspentKey, uLen, uLen)
-		for i, u := range unspentsToAdd {
-			unspentKeys[i] = u.Key()
-		}
-		count, err := b.repoManager.UnspentRepository().ConfirmUnspents(ctx, unspentKeys)
-		if err != nil {
-			return err
-		}
-		log.Debugf("confirmed %d unspents", count)
-		return nil
+	count, err := unspentRepo.ConfirmUnspents(ctx, unspentKeys)
+	if err != nil {
+		return err
 	}
+	log.Debugf("confirmed %d unspents", count)
 
-	go func() {
-		// these unspents must be inserted already confirmed.
-		for i := range unspentsToAdd {
-			unspentsToAdd[i].Confirmed = true
-		}
-		addUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToAdd)
-		spendUnspentsAsync(b.repoManager.UnspentRepository(), unspentsToSpend)
-	}()
+	count, err = spendUnspents(unspentRepo, unspentsToSpend)
+	if err != nil {
+		return err
+	}
+	log.Debugf("spent %d unspents", count)
 
 	return nil
 }
diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index e31cb5a..db5971c 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -261,8 +261,11 @@ func (t transactionManager) ExtractUnspents(
 
 	for _, in := range tx.Inputs {
 		// our unspents are native-segiwt only
-		if len(in.Witness) > 0 {
-			pubkey, _ := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+		if len(in.Witness) > 1 {
+			pubkey, err := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+			if err != nil {
+				continue
+			}
 			p := payment.FromPublicKey(pubkey, network, nil)
 
 			script := hex.EncodeToString(p.WitnessScript)
-- 
2.43.0


From e3e6b3bd082b0801ecf5a51e404e5d7ca230b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 26/42] fix: cover the network fees even if higher than the
 estimated amount

---
 pkg/wallet/transaction.go | 89 ++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 29 deletions(-)

diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index 328bca4..622dcca 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -396,18 +396,16 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount - feeAmount)
 				} else {
 					unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-					selectedUnspents, change, err := explorer.SelectUnspents(
-						unspents,
-						DummyFeeAmount,
-						opts.Network.AssetID,
+					selectedUnspents, change, fee, err := selectUnspentsForFees(
+						ptx, unspents, opts.Network.AssetID,
+						len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes,
 					)
 					if err != nil {
 						return nil, err
 					}
 					inputsToAdd = append(inputsToAdd, selectedUnspents...)
 
-					feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes)
-					change += DummyFeeAmount - feeAmount
+					feeAmount = fee
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount + change)
 
 				}
@@ -417,38 +415,38 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				// inputs to add to the tx and add another output for the eventual change
 				// returned by the coin selection
 				unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-				selectedUnspents, change, err := explorer.SelectUnspents(
-					unspents,
-					DummyFeeAmount,
-					opts.Network.AssetID,
+				selectedUnspents, change, fee, err := selectUnspentsForFees(
+					ptx, unspents, opts.Network.AssetID,
+					len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes,
 				)
 				if err != nil {
 					return nil, err
 				}
 				inputsToAdd = append(inputsToAdd, selectedUnspents...)
 
-				feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes)
-				change += DummyFeeAmount - feeAmount
+				feeAmount = fee
 
-				lbtcChangeOutput, _ := newTxOutput(
-					opts.Network.AssetID,
-					change,
-					lbtcChangeScript,
-				)
-				outputsToAdd = append(outputsToAdd, lbtcChangeOutput)
+				if change > 0 {
+					lbtcChangeOutput, _ := newTxOutput(
+						opts.Network.AssetID,
+						change,
+						lbtcChangeScript,
+					)
+					outputsToAdd = append(outputsToAdd, lbtcChangeOutput)
 
-				lbtcChangePrvBlindingKey, lbtcChangePubBlindingKey, _ := w.DeriveBlindingKeyPair(
-					DeriveBlindingKeyPairOpts{
-						Script: lbtcChangeScript,
-					},
-				)
+					lbtcChangePrvBlindingKey, lbtcChangePubBlindingKey, _ := w.DeriveBlindingKeyPair(
+						DeriveBlindingKeyPairOpts{
+							Script: lbtcChangeScript,
+						},
+					)
 
-				if opts.WantPrivateBlindKeys {
-					changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
-						lbtcChangePrvBlindingKey.Serialize()
-				} else {
-					changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
-						lbtcChangePubBlindingKey.SerializeCompressed()
+					if opts.WantPrivateBlindKeys {
+						changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
+							lbtcChangePrvBlindingKey.Serialize()
+					} else {
+						changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
+							lbtcChangePubBlindingKey.SerializeCompressed()
+					}
 				}
 			}
 		}
@@ -467,6 +465,39 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 	}, nil
 }
 
+// selectUnspentsForFees selects the coins that cover the fees of a transaction
+// with the given number of inputs and outputs to which they're added, starting
+// from the DummyFeeAmount and raising the target until it covers the fees of
+// the transaction, selected coins included. It returns the selected coins, the
+// part of their amount exceeding the fees, and the fees.
+func selectUnspentsForFees(
+	ptx *pset.Pset,
+	unspents []explorer.Utxo,
+	asset string,
+	nInputs, nOutputs, milliSatsPerBytes int,
+) ([]explorer.Utxo, uint64, uint64, error) {
+	targetAmount := DummyFeeAmount
+	for {
+		selectedUnspents, change, err := explorer.SelectUnspents(
+			unspents,
+			targetAmount,
+			asset,
+		)
+		if err != nil {
+			return nil, 0, 0, err
+		}
+
+		totalAmount := targetAmount + change
+		feeAmount := calcFeeAmount(
+			ptx, nInputs+len(selectedUnspents), nOutputs, milliSatsPerBytes,
+		)
+		if feeAmount <= totalAmount {
+			return selectedUnspents, totalAmount - feeAmount, feeAmount, nil
+		}
+		targetAmount = feeAmount
+	}
+}
+
 // FinalizeAndExtractTransactionOpts is the struct given to FinalizeAndExtractTransaction method
 type FinalizeAndExtractTransactionOpts struct {
 	PsetBase64 string
-- 
2.43.0


From 1f763447a54db913f423f4edb24106a06a82fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 27/42] fix: reject malformed proposals instead of panicking,
 leave the requests unchanged

---
 .../core/application/blockchain_listener.go   | 52 +++++++++++++++----
 internal/core/application/trade_service.go    | 36 ++++++++-----
 pkg/swap/request.go                           |  4 ++
 pkg/swap/swap.go                              |  6 +++
 4 files changed, 76 insertions(+), 22 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 6daaa94..beed670 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -95,12 +95,14 @@ func (b *blockchainListener) StartObservation() {
 
 func (b *blockchainListener) StopObservation() {
 	b.mutex.Lock()
-	defer b.mutex.Unlock()
+	wasStarted := b.started
+	b.started = false
+	b.mutex.Unlock()
 
-	if b.started {
+	// the crawler waits for its pending events to be handled before stopping
+	if wasStarted {
 		log.Debug("stop crawler")
 		b.crawlerSvc.Stop()
-		b.started = false
 	}
 }
 
@@ -135,12 +137,26 @@ func (b *blockchainListener) StartObserveTx(txid string) {
 }
 
 func (b *blockchainListener) StopObserveAddress(addr string) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
+	b.removePendingObservables(func(o crawler.Observable) bool {
+		address, ok := o.(*crawler.AddressObservable)
+		return ok && address.Address == addr
+	})
 	b.crawlerSvc.RemoveObservable(&crawler.AddressObservable{
 		Address: addr,
 	})
 }
 
 func (b *blockchainListener) StopObserveTx(txid string) {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
+	b.removePendingObservables(func(o crawler.Observable) bool {
+		tx, ok := o.(*crawler.TransactionObservable)
+		return ok && tx.TxID == txid
+	})
 	b.crawlerSvc.RemoveObservable(&crawler.TransactionObservable{TxID: txid})
 }
 
@@ -262,16 +278,34 @@ func (b *blockchainListener) listenToEventChannel() {
 }
 
 func (b *blockchainListener) startPendingObservables() {
-	if len(b.pendingObservables) <= 0 {
-		return
+	for b.startNextPendingObservable() {
+		time.Sleep(200 * time.Millisecond)
 	}
+}
 
-	for _, observable := range b.pendingObservables {
-		b.crawlerSvc.AddObservable(observable)
-		time.Sleep(200 * time.Millisecond)
+func (b *blockchainListener) startNextPendingObservable() bool {
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+
+	if !b.started || len(b.pendingObservables) <= 0 {
+		return false
 	}
 
-	b.pendingObservables = nil
+	b.crawlerSvc.AddObservable(b.pendingObservables[0])
+	b.pendingObservables = b.pendingObservables[1:]
+	return true
+}
+
+func (b *blockchainListener) removePendingObservables(
+	match func(o crawler.Observable) bool,
+) {
+	observables := make([]crawler.Observable, 0, len(b.pendingObservables))
+	for _, o := range b.pendingObservables {
+		if !match(o) {
+			observables = append(observables, o)
+		}
+	}
+	b.pendingObservables = observables
 }
 
 // settleTrade settles the trade and returns whether it wasn't already.
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 3d66661..27f6f2e 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -834,11 +834,28 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	// swap in order to get the full list of selected inputs
 	selectedUnspents := append(selectedUnspentsForSwap, psetWithFeesResult.SelectedUnspents...)
 
-	inputBlindingData, _, _ := wallet.ExtractBlindingDataFromTx(
+	// get the derivation paths of the selected inputs
+	allInfo := append(opts.MarketInfo, opts.FeeInfo...)
+	selectedInfo := getSelectedInfo(allInfo, selectedUnspents)
+
+	// add the blinding private keys of the selected inputs to those of the swap
+	// request, that must be left unchanged
+	inputBlindingKeys := make(map[string][]byte)
+	for script, blindKey := range opts.SwapRequest.GetInputBlindingKey() {
+		inputBlindingKeys[script] = blindKey
+	}
+	for _, info := range selectedInfo {
+		inputBlindingKeys[info.Script] = info.BlindingKey
+	}
+
+	inputBlindingData, _, err := wallet.ExtractBlindingDataFromTx(
 		opts.SwapRequest.GetTransaction(),
-		opts.SwapRequest.GetInputBlindingKey(),
+		inputBlindingKeys,
 		nil,
 	)
+	if err != nil {
+		return nil, fmt.Errorf("failed to unblind inputs of swap request: %s", err)
+	}
 
 	// get the indexes of the inputs of the tx to sign
 	existingInputs := len(inputBlindingData)
@@ -853,7 +870,10 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 		}
 	}
 
-	outputBlindingKeys := opts.SwapRequest.GetOutputBlindingKey()
+	outputBlindingKeys := make(map[string][]byte)
+	for script, blindKey := range opts.SwapRequest.GetOutputBlindingKey() {
+		outputBlindingKeys[script] = blindKey
+	}
 	outputBlindingKeys[opts.OutputInfo.Script] = opts.OutputInfo.BlindingKey
 	outputBlindingKeys[opts.ChangeInfo.Script] = opts.ChangeInfo.BlindingKey
 	for script, blindKey := range psetWithFeesResult.ChangeOutputsBlindingKeys {
@@ -880,10 +900,6 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 		return nil, fmt.Errorf("failed to add explicit fees: %s", err)
 	}
 
-	// get the derivation paths of the selected inputs
-	allInfo := append(opts.MarketInfo, opts.FeeInfo...)
-	selectedInfo := getSelectedInfo(allInfo, selectedUnspents)
-
 	signedPsetBase64 := blindedPlusFees.PsetBase64
 	for i := 0; i < inputsToSign; i++ {
 		inIndex := existingInputs + i
@@ -897,12 +913,6 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 		}
 	}
 
-	// get blinding private keys for selected inputs
-	inputBlindingKeys := opts.SwapRequest.GetInputBlindingKey()
-	for _, info := range selectedInfo {
-		inputBlindingKeys[info.Script] = info.BlindingKey
-	}
-
 	return &FillProposalResult{
 		PsetBase64:         signedPsetBase64,
 		SelectedUnspents:   selectedUnspents,
diff --git a/pkg/swap/request.go b/pkg/swap/request.go
index 9f40cd1..4594c14 100644
--- a/pkg/swap/request.go
+++ b/pkg/swap/request.go
@@ -78,6 +78,10 @@ func checkTxAndBlindKeys(
 			prevout = in.WitnessUtxo
 		} else {
 			txinIndex := ptx.UnsignedTx.Inputs[i].Index
+			if in.NonWitnessUtxo == nil ||
+				int(txinIndex) >= len(in.NonWitnessUtxo.Outputs) {
+				return fmt.Errorf("missing prevout of input %d", i)
+			}
 			prevout = in.NonWitnessUtxo.Outputs[txinIndex]
 		}
 		if checkInputKeys {
diff --git a/pkg/swap/swap.go b/pkg/swap/swap.go
index 7f94cb5..0d27939 100644
--- a/pkg/swap/swap.go
+++ b/pkg/swap/swap.go
@@ -20,6 +20,9 @@ func compareMessagesAndTransaction(request *pb.SwapRequest, accept *pb.SwapAccep
 	for index, input := range decodedFromRequest.Inputs {
 		if input.WitnessUtxo == nil && input.NonWitnessUtxo != nil {
 			inputVout := decodedFromRequest.UnsignedTx.Inputs[index].Index
+			if int(inputVout) >= len(input.NonWitnessUtxo.Outputs) {
+				return errors.New("invalid prevout index")
+			}
 			decodedFromRequest.Inputs[index].WitnessUtxo = input.NonWitnessUtxo.Outputs[inputVout]
 		}
 	}
@@ -128,6 +131,9 @@ func utxosFilteredByAssetHashAndUnblinded(utxos []pset.PInput, asset string, inp
 	filteredUtxos := make([]pset.PInput, 0)
 
 	for _, utxo := range utxos {
+		if utxo.WitnessUtxo == nil {
+			return nil, errors.New("missing prevout")
+		}
 		// if confidential, unblind before checking asset hash
 		if utxo.WitnessUtxo.IsConfidential() {
 			script := hex.EncodeToString(utxo.WitnessUtxo.Script)
-- 
2.43.0


From 8b16b1ead833b5a9728c0c9ad68103fd60af4236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 28/42] fix: derive deposit addresses in one transaction, never
 give an account to a second market

---
 internal/core/application/operator_service.go | 116 ++++++++----------
 1 file changed, 54 insertions(+), 62 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e6e9192..160abda 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -138,6 +138,7 @@ func (o *operatorService) DepositMarket(
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
 	var accountIndex int
+	var isNewMarket bool
 
 	// First case: the assets are given. If are valid and a market exist we need to derive a new address for that account.
 	if len(baseAsset) > 0 || len(quoteAsset) > 0 {
@@ -176,55 +177,46 @@ func (o *operatorService) DepositMarket(
 
 		nextAccountIndex := latestAccountIndex + 1
 		accountIndex = nextAccountIndex
+		isNewMarket = true
 	}
-	if numOfAddresses == 0 {
+	if numOfAddresses <= 0 {
 		numOfAddresses = 1
 	}
 
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
-	if err != nil {
-		return nil, err
-	}
-
-	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
-	for i := 0; i < numOfAddresses; i++ {
-		info, err := vault.DeriveNextExternalAddressForAccount(accountIndex)
-		if err != nil {
+	var list []AddressAndBlindingKey
+	if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
+		account := accountIndex
+		if err := o.repoManager.VaultRepository().UpdateVault(
+			ctx,
+			func(v *domain.Vault) (*domain.Vault, error) {
+				if isNewMarket {
+					// the account of a dropped market must not be used by another one
+					for i := range v.Accounts {
+						if i >= account {
+							account = i + 1
+						}
+					}
+				}
+				var err error
+				list, err = deriveAddresses(v, account, numOfAddresses)
+				return v, err
+			}); err != nil {
 			return nil, err
 		}
-		list[i] = AddressAndBlindingKey{
-			Address:     info.Address,
-			BlindingKey: hex.EncodeToString(info.BlindingKey),
-		}
-	}
-
-	go func() {
-		if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
-			// this makes sure that the market is created if it needs to. Otherwise,
-			// this does not commit any change to the marekt repo.
-			if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
-				ctx,
-				&domain.Market{
-					AccountIndex: accountIndex,
-					Fee:          o.marketFee,
-				},
-			); err != nil {
-				return nil, err
-			}
 
-			if err := o.repoManager.VaultRepository().UpdateVault(
-				ctx,
-				func(_ *domain.Vault) (*domain.Vault, error) {
-					return vault, nil
-				}); err != nil {
-				return nil, err
-			}
-
-			return nil, nil
-		}); err != nil {
-			log.WithError(err).Warn("unable to persist changes")
-		}
-	}()
+		// this makes sure that the market is created if it needs to. Otherwise,
+		// this does not commit any change to the marekt repo.
+		_, err := o.repoManager.MarketRepository().GetOrCreateMarket(
+			ctx,
+			&domain.Market{
+				AccountIndex: account,
+				Fee:          o.marketFee,
+			},
+		)
+		return nil, err
+	}); err != nil {
+		return nil, err
+	}
 
 	return list, nil
 }
@@ -233,39 +225,39 @@ func (o *operatorService) DepositFeeAccount(
 	ctx context.Context,
 	numOfAddresses int,
 ) ([]AddressAndBlindingKey, error) {
-	if numOfAddresses == 0 {
+	if numOfAddresses <= 0 {
 		numOfAddresses = 1
 	}
 
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
-	if err != nil {
+	var list []AddressAndBlindingKey
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(v *domain.Vault) (*domain.Vault, error) {
+			var err error
+			list, err = deriveAddresses(v, domain.FeeAccount, numOfAddresses)
+			return v, err
+		},
+	); err != nil {
 		return nil, err
 	}
 
-	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
+	return list, nil
+}
+
+func deriveAddresses(
+	vault *domain.Vault, accountIndex, numOfAddresses int,
+) ([]AddressAndBlindingKey, error) {
+	list := make([]AddressAndBlindingKey, 0, numOfAddresses)
 	for i := 0; i < numOfAddresses; i++ {
-		info, err := vault.DeriveNextExternalAddressForAccount(domain.FeeAccount)
+		info, err := vault.DeriveNextExternalAddressForAccount(accountIndex)
 		if err != nil {
 			return nil, err
 		}
-
-		list[i] = AddressAndBlindingKey{
+		list = append(list, AddressAndBlindingKey{
 			Address:     info.Address,
 			BlindingKey: hex.EncodeToString(info.BlindingKey),
-		}
+		})
 	}
-
-	go func() {
-		if err := o.repoManager.VaultRepository().UpdateVault(
-			ctx,
-			func(_ *domain.Vault) (*domain.Vault, error) {
-				return vault, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to update vault")
-		}
-	}()
-
 	return list, nil
 }
 
-- 
2.43.0


From 29c1cd03b244c868e8e66a7088e3d8439328ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 29/42] fix: update the market fees on the stored market, not
 on a copy read before

---
 internal/core/application/operator_service.go | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 160abda..d84f4ab 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -374,15 +374,15 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
-		return nil, err
-	}
-
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
@@ -430,15 +430,15 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
-		return nil, err
-	}
-
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
-- 
2.43.0


From b81d7cefb041bd34a93728b4b149ec9295d3915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 30/42] fix: refuse to close or drop a market that does not
 exist

---
 internal/core/application/operator_service.go | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index d84f4ab..94dcf4e 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -332,6 +332,19 @@ func (o *operatorService) CloseMarket(
 		return domain.ErrMarketInvalidBaseAsset
 	}
 
+	// check if market exists
+	market, _, err := o.repoManager.MarketRepository().GetMarketByAsset(
+		ctx,
+		quoteAsset,
+	)
+	if err != nil {
+		return err
+	}
+
+	if market == nil {
+		return ErrMarketNotExist
+	}
+
 	err = o.repoManager.MarketRepository().CloseMarket(
 		ctx,
 		quoteAsset,
@@ -1047,6 +1060,18 @@ func (o *operatorService) DropMarket(
 	ctx context.Context,
 	accountIndex int,
 ) error {
+	market, err := o.repoManager.MarketRepository().GetMarketByAccount(
+		ctx,
+		accountIndex,
+	)
+	if err != nil {
+		return err
+	}
+
+	if market == nil {
+		return ErrMarketNotExist
+	}
+
 	return o.repoManager.MarketRepository().DeleteMarket(ctx, accountIndex)
 }
 
-- 
2.43.0


From a5557f466fc7447a3484936035a03198b913d2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 31/42] fix: a claim checks the assets and the outpoints, and
 adds its coins before it returns

---
 internal/core/application/operator_service.go | 52 +++++++++++++++----
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 94dcf4e..d0c1ade 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -108,6 +108,7 @@ type operatorService struct {
 	marketFee                  int64
 	network                    *network.Network
 	feeAccountBalanceThreshold uint64
+	claimLock                  sync.Mutex
 }
 
 // NewOperatorService is a constructor function for OperatorService.
@@ -990,6 +991,10 @@ func (o *operatorService) ClaimMarketDeposit(
 		return err
 	}
 
+	// one claim at a time, so that a pair is never bound to two markets
+	o.claimLock.Lock()
+	defer o.claimLock.Unlock()
+
 	market, accountIndex, err := o.repoManager.MarketRepository().GetMarketByAsset(
 		ctx, marketReq.QuoteAsset,
 	)
@@ -1034,7 +1039,9 @@ func (o *operatorService) ClaimMarketDeposit(
 		}
 	}
 
-	return o.claimDeposit(ctx, infoPerAccount, outpoints, marketDeposit)
+	return o.claimDeposit(
+		ctx, infoPerAccount, outpoints, marketDeposit, marketReq.QuoteAsset,
+	)
 }
 
 // ClaimFeeDeposit adds unspents to the Fee Account
@@ -1053,7 +1060,7 @@ func (o *operatorService) ClaimFeeDeposit(
 	infoPerAccount := make(map[int]domain.AddressesInfo)
 	infoPerAccount[domain.FeeAccount] = info
 
-	return o.claimDeposit(ctx, infoPerAccount, outpoints, feeDeposit)
+	return o.claimDeposit(ctx, infoPerAccount, outpoints, feeDeposit, "")
 }
 
 func (o *operatorService) DropMarket(
@@ -1143,6 +1150,7 @@ func (o *operatorService) claimDeposit(
 	infoPerAccount map[int]domain.AddressesInfo,
 	outpoints []TxOutpoint,
 	depositType int,
+	quoteAsset string,
 ) error {
 	// group all addresses info by script
 	infoByScript := make(map[string]domain.AddressInfo)
@@ -1174,7 +1182,7 @@ func (o *operatorService) claimDeposit(
 			return err
 		}
 
-		if len(tx.Outputs()) <= v.Index {
+		if v.Index < 0 || len(tx.Outputs()) <= v.Index {
 			return ErrInvalidOutpoint
 		}
 
@@ -1213,22 +1221,25 @@ func (o *operatorService) claimDeposit(
 	for accountIndex, count := range counter {
 		if count == len(outpoints) {
 			if depositType == marketDeposit {
-				if err := o.fundMarket(accountIndex, unspents); err != nil {
+				if err := o.fundMarket(accountIndex, quoteAsset, unspents); err != nil {
 					return err
 				}
 				log.Infof("funded market with account %d", accountIndex)
 			}
 
-			go func() {
-				addUnspentsAsync(o.repoManager.UnspentRepository(), unspents)
-				if depositType == feeDeposit {
+			if err := o.addConfirmedUnspents(ctx, unspents); err != nil {
+				return err
+			}
+
+			if depositType == feeDeposit {
+				go func() {
 					if err := o.checkAccountBalance(infoPerAccount[accountIndex]); err != nil {
 						log.Warn(err)
 						return
 					}
 					log.Info("fee account funded. Trades can be served")
-				}
-			}()
+				}()
+			}
 
 			return nil
 		}
@@ -1237,8 +1248,27 @@ func (o *operatorService) claimDeposit(
 	return ErrInvalidOutpoints
 }
 
+// addConfirmedUnspents adds the unspents to the utxo set and confirms those
+// that are already there, which may have been added when still unconfirmed.
+func (o *operatorService) addConfirmedUnspents(
+	ctx context.Context, unspents []domain.Unspent,
+) error {
+	unspentRepo := o.repoManager.UnspentRepository()
+	if err := unspentRepo.AddUnspents(ctx, unspents); err != nil {
+		return err
+	}
+
+	keys := make([]domain.UnspentKey, 0, len(unspents))
+	for _, u := range unspents {
+		keys = append(keys, u.Key())
+	}
+	_, err := unspentRepo.ConfirmUnspents(ctx, keys)
+	return err
+}
+
 func (o *operatorService) fundMarket(
 	accountIndex int,
+	quoteAsset string,
 	unspents []domain.Unspent,
 ) error {
 	outpoints := make([]domain.OutpointWithAsset, 0, len(unspents))
@@ -1258,6 +1288,10 @@ func (o *operatorService) fundMarket(
 			if err := m.FundMarket(outpoints, o.marketBaseAsset); err != nil {
 				return nil, err
 			}
+			// the market must be funded with the assets of the requested pair
+			if m.QuoteAsset != quoteAsset {
+				return nil, domain.ErrMarketMissingQuoteAsset
+			}
 
 			return m, nil
 		},
-- 
2.43.0


From 28d2bc5c9f421c51e22da620a70ee42e3e13c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 32/42] fix: concurrent payments never spend the same coins,
 outputs are blinded for their own addresses

---
 .../core/application/blockchain_listener.go   |  12 +-
 internal/core/application/errors.go           |   3 +
 internal/core/application/operator_service.go | 113 ++++++++++--------
 internal/core/application/trade_service.go    |  20 +---
 internal/core/application/wallet_service.go   |  93 ++++++++------
 5 files changed, 130 insertions(+), 111 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index beed670..6783196 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -189,7 +189,7 @@ func (b *blockchainListener) listenToEventChannel() {
 
 			// the trade is settled for last, so that if anything goes wrong with the
 			// utxo set the event can be handled again.
-			if err := b.confirmOrAddUnspents(e.TxHex, e.TxID, trade.MarketQuoteAsset); err != nil {
+			if err := b.confirmOrAddUnspents(e.TxHex, e.TxID); err != nil {
 				log.Warnf("trying to confirm or add unspents: %v", err)
 				break
 			}
@@ -340,19 +340,11 @@ func (b *blockchainListener) settleTrade(
 func (b *blockchainListener) confirmOrAddUnspents(
 	txHex string,
 	txID string,
-	mktAsset string,
 ) error {
-	ctx := context.Background()
-	_, accountIndex, err := b.repoManager.MarketRepository().GetMarketByAsset(ctx, mktAsset)
-	if err != nil {
-		return err
-	}
-
 	unspentsToAdd, unspentsToSpend, err := extractUnspentsFromTx(
 		b.repoManager.VaultRepository(),
 		b.network,
 		txHex,
-		accountIndex,
 	)
 	if err != nil {
 		return err
@@ -369,7 +361,7 @@ func (b *blockchainListener) confirmOrAddUnspents(
 	if err := addUnspents(unspentRepo, unspentsToAdd); err != nil {
 		return err
 	}
-	count, err := unspentRepo.ConfirmUnspents(ctx, unspentKeys)
+	count, err := unspentRepo.ConfirmUnspents(context.Background(), unspentKeys)
 	if err != nil {
 		return err
 	}
diff --git a/internal/core/application/errors.go b/internal/core/application/errors.go
index a6defee..f7f0ff6 100644
--- a/internal/core/application/errors.go
+++ b/internal/core/application/errors.go
@@ -19,6 +19,9 @@ var (
 	ErrInvalidOutpoint = errors.New("outpoint refers to inexistent tx output")
 	// ErrInvalidOutpoints ...
 	ErrInvalidOutpoints = errors.New("all outpoints must be funded for the same account")
+	// ErrInvalidOutputAmount is returned when attempting to send an amount that
+	// is not positive or exceeds the maximum possible one.
+	ErrInvalidOutputAmount = errors.New("output amount is out of range")
 	// ErrServiceUnavailable is the error returned by the trade service in case of
 	// internal errors
 	ErrServiceUnavailable = errors.New("service is unavailable, try again later")
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index d0c1ade..7382877 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -728,6 +728,9 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, ErrMarketNotExist
 	}
 
+	coinsLock.Lock()
+	defer coinsLock.Unlock()
+
 	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		return nil, err
@@ -792,53 +795,67 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
-	mnemonic, err := vault.GetMnemonicSafe()
-	if err != nil {
-		return nil, err
+	if len(feeUnspents) <= 0 {
+		return nil, ErrFeeAccountNotFunded
 	}
 
-	marketAccount, err := vault.AccountByIndex(market.AccountIndex)
-	if err != nil {
-		return nil, err
-	}
-	feeAccount, err := vault.AccountByIndex(domain.FeeAccount)
-	if err != nil {
-		return nil, err
-	}
+	var txHex string
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(v *domain.Vault) (*domain.Vault, error) {
+			mnemonic, err := v.GetMnemonicSafe()
+			if err != nil {
+				return nil, err
+			}
 
-	changePathsByAsset := map[string]string{}
-	feeChangePathByAsset := map[string]string{}
-	for _, asset := range getAssetsOfOutputs(outputs) {
-		info, err := vault.DeriveNextInternalAddressForAccount(accountIndex)
-		if err != nil {
-			return nil, err
-		}
+			marketAccount, err := v.AccountByIndex(market.AccountIndex)
+			if err != nil {
+				return nil, err
+			}
+			feeAccount, err := v.AccountByIndex(domain.FeeAccount)
+			if err != nil {
+				return nil, err
+			}
 
-		derivationPath := marketAccount.DerivationPathByScript[info.Script]
-		changePathsByAsset[asset] = derivationPath
-	}
+			changePathsByAsset := map[string]string{}
+			feeChangePathByAsset := map[string]string{}
+			for _, asset := range getAssetsOfOutputs(outputs) {
+				info, err := v.DeriveNextInternalAddressForAccount(accountIndex)
+				if err != nil {
+					return nil, err
+				}
 
-	feeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-	if err != nil {
-		return nil, err
-	}
-	feeChangePathByAsset[o.network.AssetID] =
-		feeAccount.DerivationPathByScript[feeInfo.Script]
-
-	txHex, err := sendToMany(sendToManyOpts{
-		mnemonic:              mnemonic,
-		unspents:              marketUnspents,
-		feeUnspents:           feeUnspents,
-		outputs:               outputs,
-		outputsBlindingKeys:   outputsBlindingKeys,
-		changePathsByAsset:    changePathsByAsset,
-		feeChangePathByAsset:  feeChangePathByAsset,
-		inputPathsByScript:    marketAccount.DerivationPathByScript,
-		feeInputPathsByScript: feeAccount.DerivationPathByScript,
-		milliSatPerByte:       int(req.MillisatPerByte),
-		network:               o.network,
-	})
-	if err != nil {
+				derivationPath := marketAccount.DerivationPathByScript[info.Script]
+				changePathsByAsset[asset] = derivationPath
+			}
+
+			feeInfo, err := v.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+			if err != nil {
+				return nil, err
+			}
+			feeChangePathByAsset[o.network.AssetID] =
+				feeAccount.DerivationPathByScript[feeInfo.Script]
+
+			txHex, err = sendToMany(sendToManyOpts{
+				mnemonic:              mnemonic,
+				unspents:              marketUnspents,
+				feeUnspents:           feeUnspents,
+				outputs:               outputs,
+				outputsBlindingKeys:   outputsBlindingKeys,
+				changePathsByAsset:    changePathsByAsset,
+				feeChangePathByAsset:  feeChangePathByAsset,
+				inputPathsByScript:    marketAccount.DerivationPathByScript,
+				feeInputPathsByScript: feeAccount.DerivationPathByScript,
+				milliSatPerByte:       int(req.MillisatPerByte),
+				network:               o.network,
+			})
+			if err != nil {
+				return nil, err
+			}
+
+			return v, nil
+		},
+	); err != nil {
 		return nil, err
 	}
 
@@ -850,21 +867,11 @@ func (o *operatorService) WithdrawMarketFunds(
 		}
 	}
 
-	if err := o.repoManager.VaultRepository().UpdateVault(
-		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
-		},
-	); err != nil {
-		return nil, err
-	}
-
-	go extractUnspentsFromTxAndUpdateUtxoSet(
+	extractUnspentsFromTxAndUpdateUtxoSet(
 		o.repoManager.UnspentRepository(),
 		o.repoManager.VaultRepository(),
 		o.network,
 		txHex,
-		market.AccountIndex,
 	)
 
 	// Publish message for topic AccountWithdraw to pubsub service.
diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 27f6f2e..8d18bca 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -595,20 +595,12 @@ func (t *tradeService) tradeComplete(
 		log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
 	}
 
-	if _, accountIndex, err := t.repoManager.MarketRepository().GetMarketByAsset(
-		context.Background(),
-		trade.MarketQuoteAsset,
-	); err != nil {
-		log.WithError(err).Warn("unable to retrieve market of completed trade")
-	} else {
-		extractUnspentsFromTxAndUpdateUtxoSet(
-			t.repoManager.UnspentRepository(),
-			t.repoManager.VaultRepository(),
-			t.network,
-			res.TxHex,
-			accountIndex,
-		)
-	}
+	extractUnspentsFromTxAndUpdateUtxoSet(
+		t.repoManager.UnspentRepository(),
+		t.repoManager.VaultRepository(),
+		t.network,
+		res.TxHex,
+	)
 
 	return
 }
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 27e69d5..3e74064 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -20,6 +20,7 @@ import (
 	"github.com/tdex-network/tdex-daemon/pkg/wallet"
 	"github.com/vulpemventures/go-elements/address"
 	"github.com/vulpemventures/go-elements/network"
+	"github.com/vulpemventures/go-elements/pset"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -478,6 +479,9 @@ func (w *walletService) SendToMany(
 		return nil, err
 	}
 
+	coinsLock.Lock()
+	defer coinsLock.Unlock()
+
 	walletUnspents, err := w.getAllUnspentsForAccount(ctx, domain.WalletAccount, true)
 	if err != nil {
 		return nil, err
@@ -547,29 +551,25 @@ func (w *walletService) SendToMany(
 			}
 
 			txHex = _txHex
-
-			if !req.Push {
-				return v, nil
-			}
-
-			txid, err := w.explorerService.BroadcastTransaction(txHex)
-			if err != nil {
-				return nil, err
-			}
-			log.Debugf("wallet account tx broadcasted with id: %s", txid)
-
 			return v, nil
 		},
 	); err != nil {
 		return nil, err
 	}
 
-	go extractUnspentsFromTxAndUpdateUtxoSet(
+	if req.Push {
+		txid, err := w.explorerService.BroadcastTransaction(txHex)
+		if err != nil {
+			return nil, err
+		}
+		log.Debugf("wallet account tx broadcasted with id: %s", txid)
+	}
+
+	extractUnspentsFromTxAndUpdateUtxoSet(
 		w.repoManager.UnspentRepository(),
 		w.repoManager.VaultRepository(),
 		w.network,
 		txHex,
-		domain.FeeAccount,
 	)
 
 	rawTx, _ := hex.DecodeString(txHex)
@@ -801,7 +801,17 @@ func (w *walletService) getAllUnspentsForAccount(
 	addresses, blindingKeys := info.AddressesAndKeys()
 
 	if useExplorer {
-		return w.explorerService.GetUnspentsForAddresses(addresses, blindingKeys)
+		unspents, err := w.explorerService.GetUnspentsForAddresses(addresses, blindingKeys)
+		if err != nil {
+			return nil, err
+		}
+		confirmed := make([]explorer.Utxo, 0, len(unspents))
+		for _, u := range unspents {
+			if u.IsConfirmed() {
+				confirmed = append(confirmed, u)
+			}
+		}
+		return confirmed, nil
 	}
 
 	unspents, err := w.repoManager.UnspentRepository().GetAvailableUnspentsForAddresses(ctx, addresses)
@@ -919,6 +929,9 @@ func (w *walletService) restoreUnspentsForAddress(
 	chUnspent <- unspentInfo{info: info, unspents: unspents}
 }
 
+// maxOutputAmount is the max amount of satoshis of an output.
+const maxOutputAmount = 2100000000000000
+
 func parseRequestOutputs(reqOutputs []TxOut) (
 	[]*transaction.TxOutput,
 	[][]byte,
@@ -932,6 +945,9 @@ func parseRequestOutputs(reqOutputs []TxOut) (
 		if err != nil {
 			return nil, nil, err
 		}
+		if out.Value <= 0 || out.Value > maxOutputAmount {
+			return nil, nil, ErrInvalidOutputAmount
+		}
 		value, err := bufferutil.ValueToBytes(uint64(out.Value))
 		if err != nil {
 			return nil, nil, err
@@ -1029,9 +1045,11 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	}
 
 	// update the list of output blinding keys with those of the eventual changes
-	outputsBlindingKeys := opts.outputsBlindingKeys
-	for _, v := range updateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	outputsBlindingKeys, err := appendChangeBlindingKeys(
+		opts.outputsBlindingKeys, updateResult,
+	)
+	if err != nil {
+		return "", err
 	}
 
 	// add inputs for paying network fees
@@ -1048,8 +1066,11 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	}
 
 	// again, add changes' blinding keys to the list of those of the outputs
-	for _, v := range feeUpdateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	outputsBlindingKeys, err = appendChangeBlindingKeys(
+		outputsBlindingKeys, feeUpdateResult,
+	)
+	if err != nil {
+		return "", err
 	}
 
 	// blind the transaction
@@ -1094,6 +1115,24 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	return txHex, nil
 }
 
+// appendChangeBlindingKeys adds to the list the blinding keys of the changes at
+// the end of the updated transaction, in the order of its outputs.
+func appendChangeBlindingKeys(
+	blindingKeys [][]byte, update *wallet.UpdateTxResult,
+) ([][]byte, error) {
+	ptx, err := pset.NewPsetFromBase64(update.PsetBase64)
+	if err != nil {
+		return nil, err
+	}
+	for _, out := range ptx.UnsignedTx.Outputs[len(blindingKeys):] {
+		blindingKeys = append(
+			blindingKeys,
+			update.ChangeOutputsBlindingKeys[hex.EncodeToString(out.Script)],
+		)
+	}
+	return blindingKeys, nil
+}
+
 func getDerivationPathsForUnspents(
 	account *domain.Account,
 	unspents []explorer.Utxo,
@@ -1300,25 +1339,13 @@ func extractUnspentsFromTx(
 	vaultRepo domain.VaultRepository,
 	network *network.Network,
 	txHex string,
-	accountIndex int,
 ) ([]domain.Unspent, []domain.UnspentKey, error) {
 	vault, err := vaultRepo.GetOrCreateVault(context.Background(), nil, "", nil)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	info, err := vault.AllDerivedAddressesInfoForAccount(accountIndex)
-	if err != nil {
-		return nil, nil, err
-	}
-	infoByScript := groupAddressesInfoByScript(info)
-
-	if accountIndex != domain.FeeAccount {
-		info, _ = vault.AllDerivedAddressesInfoForAccount(domain.FeeAccount)
-		for script, in := range groupAddressesInfoByScript(info) {
-			infoByScript[script] = in
-		}
-	}
+	infoByScript := groupAddressesInfoByScript(vault.AllDerivedAddressesInfo())
 
 	return TransactionManager.ExtractUnspents(txHex, infoByScript, network)
 }
@@ -1328,13 +1355,11 @@ func extractUnspentsFromTxAndUpdateUtxoSet(
 	vaultRepo domain.VaultRepository,
 	net *network.Network,
 	txHex string,
-	accountIndex int,
 ) {
 	unspentsToAdd, unspentsToSpend, err := extractUnspentsFromTx(
 		vaultRepo,
 		net,
 		txHex,
-		accountIndex,
 	)
 	if err != nil {
 		log.Warnf(
-- 
2.43.0


From 806392eceef531a8109bf79ff116cdf25476d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 33/42] fix: the change of a payment can be spent once its
 transaction is confirmed

---
 .../core/application/blockchain_listener.go   |  9 +++++++++
 internal/core/application/operator_service.go |  9 +++------
 internal/core/application/wallet_service.go   | 19 ++++++++++++++++++-
 internal/core/domain/errors.go                |  2 ++
 .../storage/db/badger/errors.go               |  8 ++++++--
 .../storage/db/inmemory/errors.go             |  8 ++++++--
 6 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 6783196..b6647a7 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -182,6 +182,15 @@ func (b *blockchainListener) listenToEventChannel() {
 			ctx := context.Background()
 
 			trade, err := b.repoManager.TradeRepository().GetTradeByTxID(ctx, e.TxID)
+			if err == domain.ErrTradeNotFound {
+				// not a trade, but either a payment or a deposit.
+				if err := b.confirmOrAddUnspents(e.TxHex, e.TxID); err != nil {
+					log.Warnf("trying to confirm or add unspents: %v", err)
+					break
+				}
+				b.StopObserveTx(e.TxID)
+				break
+			}
 			if err != nil {
 				log.Warnf("unable to find trade with id %s: %v", e.TxID, err)
 				break
diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 7382877..c3be1d5 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -865,6 +865,8 @@ func (o *operatorService) WithdrawMarketFunds(
 		if err != nil {
 			return nil, err
 		}
+		// the change can be spent as soon as the transaction is confirmed
+		o.blockchainListener.StartObserveTx(txid)
 	}
 
 	extractUnspentsFromTxAndUpdateUtxoSet(
@@ -1265,12 +1267,7 @@ func (o *operatorService) addConfirmedUnspents(
 		return err
 	}
 
-	keys := make([]domain.UnspentKey, 0, len(unspents))
-	for _, u := range unspents {
-		keys = append(keys, u.Key())
-	}
-	_, err := unspentRepo.ConfirmUnspents(ctx, keys)
-	return err
+	return confirmUnspents(unspentRepo, unspents)
 }
 
 func (o *operatorService) fundMarket(
diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 3e74064..672eb28 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -563,6 +563,8 @@ func (w *walletService) SendToMany(
 			return nil, err
 		}
 		log.Debugf("wallet account tx broadcasted with id: %s", txid)
+		// the change can be spent as soon as the transaction is confirmed
+		w.blockchainListener.StartObserveTx(txid)
 	}
 
 	extractUnspentsFromTxAndUpdateUtxoSet(
@@ -1258,6 +1260,18 @@ func addUnspents(unspentRepo domain.UnspentRepository, unspents []domain.Unspent
 	return unspentRepo.AddUnspents(context.Background(), unspents)
 }
 
+// confirmUnspents updates those confirmed that were already in the utxo set.
+func confirmUnspents(unspentRepo domain.UnspentRepository, unspents []domain.Unspent) error {
+	keys := make([]domain.UnspentKey, 0, len(unspents))
+	for _, u := range unspents {
+		if u.IsConfirmed() {
+			keys = append(keys, u.Key())
+		}
+	}
+	_, err := unspentRepo.ConfirmUnspents(context.Background(), keys)
+	return err
+}
+
 func fetchAndAddUnspents(
 	explorerSvc explorer.Service,
 	unspentRepo domain.UnspentRepository,
@@ -1282,7 +1296,10 @@ func fetchAndAddUnspents(
 		return nil
 	}
 	go startObserveUnconfirmedUnspents(bcListener, unspents)
-	return addUnspents(unspentRepo, unspents)
+	if err := addUnspents(unspentRepo, unspents); err != nil {
+		return err
+	}
+	return confirmUnspents(unspentRepo, unspents)
 }
 
 func spendUnspents(
diff --git a/internal/core/domain/errors.go b/internal/core/domain/errors.go
index 51b620e..8e7fa8b 100644
--- a/internal/core/domain/errors.go
+++ b/internal/core/domain/errors.go
@@ -81,6 +81,8 @@ var (
 
 // Trade errors
 var (
+	// ErrTradeNotFound is returned when there is no trade with the given identifier
+	ErrTradeNotFound = errors.New("trade not found")
 	// ErrTradeMustBeEmpty ...
 	ErrTradeMustBeEmpty = errors.New(
 		"trade must be empty for parsing a proposal",
diff --git a/internal/infrastructure/storage/db/badger/errors.go b/internal/infrastructure/storage/db/badger/errors.go
index b261103..c4ad551 100644
--- a/internal/infrastructure/storage/db/badger/errors.go
+++ b/internal/infrastructure/storage/db/badger/errors.go
@@ -1,6 +1,10 @@
 package dbbadger
 
-import "errors"
+import (
+	"errors"
+
+	"github.com/tdex-network/tdex-daemon/internal/core/domain"
+)
 
 var (
 	// ErrMarketInvalidRequest ...
@@ -16,5 +20,5 @@ var (
 
 var (
 	// ErrTradeNotFound ...
-	ErrTradeNotFound = errors.New("trade not found")
+	ErrTradeNotFound = domain.ErrTradeNotFound
 )
diff --git a/internal/infrastructure/storage/db/inmemory/errors.go b/internal/infrastructure/storage/db/inmemory/errors.go
index 1e2e043..bdfb853 100644
--- a/internal/infrastructure/storage/db/inmemory/errors.go
+++ b/internal/infrastructure/storage/db/inmemory/errors.go
@@ -1,6 +1,10 @@
 package inmemory
 
-import "errors"
+import (
+	"errors"
+
+	"github.com/tdex-network/tdex-daemon/internal/core/domain"
+)
 
 // Market errors
 var (
@@ -21,5 +25,5 @@ var (
 // Trade errors
 var (
 	// ErrTradeNotFound ...
-	ErrTradeNotFound = errors.New("trade not found")
+	ErrTradeNotFound = domain.ErrTradeNotFound
 )
-- 
2.43.0


From 5be42163b510cae0dd439f924b38c14ceb12e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 34/42] fix: list pluggable markets with the type of the
 pluggable strategy

---
 internal/core/application/operator_service.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index c3be1d5..c9beefa 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -633,6 +633,11 @@ func (o *operatorService) ListMarket(
 
 	marketInfo := make([]MarketInfo, 0, len(markets))
 	for _, market := range markets {
+		strategyType := market.Strategy.Type
+		if market.IsStrategyPluggable() {
+			strategyType = int(domain.StrategyTypePluggable)
+		}
+
 		marketInfo = append(marketInfo, MarketInfo{
 			AccountIndex: uint64(market.AccountIndex),
 			Market: Market{
@@ -640,7 +645,7 @@ func (o *operatorService) ListMarket(
 				QuoteAsset: market.QuoteAsset,
 			},
 			Tradable:     market.Tradable,
-			StrategyType: market.Strategy.Type,
+			StrategyType: strategyType,
 			Price:        market.Price,
 			Fee: Fee{
 				BasisPoint:    market.Fee,
-- 
2.43.0


From 7c100e9ca411ad2479ac6468a479dfa24b00c338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 35/42] fix: blind payments with the known blinding data, the
 range proofs of the coins are not stored

---
 internal/core/application/wallet_service.go | 37 ++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 672eb28..499adfd 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -1075,9 +1075,17 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 		return "", err
 	}
 
+	inputBlindingData, err := getInputBlindingData(
+		feeUpdateResult.PsetBase64, append(opts.feeUnspents, opts.unspents...),
+	)
+	if err != nil {
+		return "", err
+	}
+
 	// blind the transaction
-	blindedPset, err := w.BlindTransactionWithKeys(wallet.BlindTransactionWithKeysOpts{
+	blindedPset, err := w.BlindTransactionWithData(wallet.BlindTransactionWithDataOpts{
 		PsetBase64:         feeUpdateResult.PsetBase64,
+		InputBlindingData:  inputBlindingData,
 		OutputBlindingKeys: outputsBlindingKeys,
 	})
 	if err != nil {
@@ -1117,6 +1125,33 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	return txHex, nil
 }
 
+// getInputBlindingData returns the blinding data of the inputs of the partial
+// transaction, as known for the unspents. They can't be revealed with the
+// blinding keys since the range proofs of the unspents are not stored.
+func getInputBlindingData(
+	psetBase64 string, unspents []explorer.Utxo,
+) (map[int]wallet.BlindingData, error) {
+	ptx, err := pset.NewPsetFromBase64(psetBase64)
+	if err != nil {
+		return nil, err
+	}
+	blindingData := make(map[int]wallet.BlindingData)
+	for i, in := range ptx.UnsignedTx.Inputs {
+		txid := bufferutil.TxIDFromBytes(in.Hash)
+		for _, u := range unspents {
+			if u.Hash() == txid && u.Index() == in.Index {
+				blindingData[i] = wallet.BlindingData{
+					Asset:         u.Asset(),
+					Amount:        u.Value(),
+					AssetBlinder:  u.AssetBlinder(),
+					AmountBlinder: u.ValueBlinder(),
+				}
+			}
+		}
+	}
+	return blindingData, nil
+}
+
 // appendChangeBlindingKeys adds to the list the blinding keys of the changes at
 // the end of the updated transaction, in the order of its outputs.
 func appendChangeBlindingKeys(
-- 
2.43.0


From 4a4cae83ebcc74dee7c57ee6e6a3ba1746f6c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:58 +0000
Subject: [PATCH 36/42] fix: fail the restoration of the wallet if the explorer
 cannot tell which addresses are used

---
 internal/core/application/wallet_service.go | 50 ++++++++++++++-------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 499adfd..4206a51 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -615,12 +615,18 @@ func (w *walletService) restoreVault(
 		SigningMnemonic: mnemonic,
 	})
 
-	var feeRestoreInfo, walletRestoreInfo *accountLastDerivedIndex
-	var marketsRestoreInfo []*accountLastDerivedIndex
-
-	feeRestoreInfo = w.restoreAccount(ww, domain.FeeAccount)
-	walletRestoreInfo = w.restoreAccount(ww, domain.WalletAccount)
-	marketsRestoreInfo = w.restoreMarketAccounts(ww)
+	feeRestoreInfo, err := w.restoreAccount(ww, domain.FeeAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	walletRestoreInfo, err := w.restoreAccount(ww, domain.WalletAccount)
+	if err != nil {
+		return nil, nil, err
+	}
+	marketsRestoreInfo, err := w.restoreMarketAccounts(ww)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	// restore vault accounts
 	feeInfo, err := initVaultAccount(vault, domain.FeeAccount, feeRestoreInfo)
@@ -648,7 +654,7 @@ func (w *walletService) restoreVault(
 func (w *walletService) restoreAccount(
 	ww *wallet.Wallet,
 	accountIndex int,
-) *accountLastDerivedIndex {
+) (*accountLastDerivedIndex, error) {
 	lastDerivedIndex := &accountLastDerivedIndex{}
 	for chainIndex := 0; chainIndex <= 1; chainIndex++ {
 		firstUnusedAddress := -1
@@ -663,7 +669,13 @@ func (w *walletService) restoreAccount(
 				Script: script,
 			})
 
-			if !isAddressFunded(ctAddress, blindKey.Serialize(), w.explorerService) {
+			isFunded, err := isAddressFunded(
+				ctAddress, blindKey.Serialize(), w.explorerService,
+			)
+			if err != nil {
+				return nil, err
+			}
+			if !isFunded {
 				if firstUnusedAddress < 0 {
 					firstUnusedAddress = i
 				}
@@ -685,33 +697,36 @@ func (w *walletService) restoreAccount(
 
 	if lastDerivedIndex.external < 0 && lastDerivedIndex.internal < 0 {
 		log.Debugf("account %d empty", accountIndex)
-		return nil
+		return nil, nil
 	}
 	log.Debugf(
 		"account %d total fetched addresses: %d",
 		accountIndex, lastDerivedIndex.total(),
 	)
-	return lastDerivedIndex
+	return lastDerivedIndex, nil
 }
 
 func (w *walletService) restoreMarketAccounts(
 	ww *wallet.Wallet,
-) []*accountLastDerivedIndex {
+) ([]*accountLastDerivedIndex, error) {
 	marketsLastIndex := make([]*accountLastDerivedIndex, 0)
 	i := 0
 	for {
 		marketIndex := domain.MarketAccountStart + i
-		lastDerivedIndex := w.restoreAccount(
+		lastDerivedIndex, err := w.restoreAccount(
 			ww,
 			marketIndex,
 		)
+		if err != nil {
+			return nil, err
+		}
 		if lastDerivedIndex == nil {
 			break
 		}
 		marketsLastIndex = append(marketsLastIndex, lastDerivedIndex)
 		i++
 	}
-	return marketsLastIndex
+	return marketsLastIndex, nil
 }
 
 func (w *walletService) restoreMarket(
@@ -1222,13 +1237,14 @@ func initVaultAccount(
 	return addresses, nil
 }
 
-func isAddressFunded(addr string, blindKey []byte, explorerSvc explorer.Service) bool {
+func isAddressFunded(
+	addr string, blindKey []byte, explorerSvc explorer.Service,
+) (bool, error) {
 	txs, err := explorerSvc.GetTransactionsForAddress(addr, blindKey)
 	if err != nil {
-		// should we retry?
-		return false
+		return false, err
 	}
-	return len(txs) > 0
+	return len(txs) > 0, nil
 }
 
 func getBalancesByAsset(unspents []explorer.Utxo) map[string]BalanceInfo {
-- 
2.43.0


From 93bda227df3c52f3cca5d41078aa998225ce3f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 37/42] fix: restore a market without the funds of a market as
 not funded instead of failing the restoration

---
 internal/core/application/wallet_service.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 4206a51..78eedc0 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -752,8 +752,11 @@ func (w *walletService) restoreMarket(
 			}
 		}
 
+		// the market can still be funded later by the operator
 		if err := market.FundMarket(outpoints, w.marketBaseAsset); err != nil {
-			return nil, err
+			log.WithError(err).Warnf(
+				"market with account %d restored as not funded", accountIndex,
+			)
 		}
 	}
 
-- 
2.43.0


From b108040b358e8228c9b66177632b5075b17a25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 38/42] fix: store the restored state all at once, and let the
 wallet be initialized again after a failure

---
 internal/core/application/wallet_service.go | 106 +++++++++++++-------
 1 file changed, 70 insertions(+), 36 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 78eedc0..0ce04db 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -169,17 +169,30 @@ func (w *walletService) InitWallet(
 		close(chErr)
 		close(chRes)
 	}()
-	if w.isInitialized() {
-		return
-	}
 	// this prevents strange behaviors by making consecutive calls to InitWallet
 	// while it's still syncing
-	if w.isSyncing() {
+	if !w.beginInit() {
 		return
 	}
 
+	err := w.initWallet(ctx, mnemonic, passphrase, restore, chRes)
+	// in case of error, the wallet can be initialized again
+	w.endInit(err == nil)
+	if err != nil {
+		chErr <- err
+		return
+	}
+	log.Debug("done")
+}
+
+func (w *walletService) initWallet(
+	ctx context.Context,
+	mnemonic []string,
+	passphrase string,
+	restore bool,
+	chRes chan *InitWalletReply,
+) error {
 	if restore {
-		w.setSyncing(true)
 		log.Debug("restoring wallet")
 		start := time.Now()
 		defer func() {
@@ -190,14 +203,20 @@ func (w *walletService) InitWallet(
 		log.Debug("creating wallet")
 	}
 
-	vault, err := w.repoManager.VaultRepository().GetOrCreateVault(ctx, mnemonic, passphrase, w.network)
-	if err != nil {
-		chErr <- fmt.Errorf("unable to retrieve vault: %v", err)
-		return
-	}
-	defer vault.Lock()
+	if !restore {
+		vault, err := w.repoManager.VaultRepository().GetOrCreateVault(ctx, mnemonic, passphrase, w.network)
+		if err != nil {
+			return fmt.Errorf("unable to retrieve vault: %v", err)
+		}
+		defer vault.Lock()
+	} else {
+		// the restored vault is stored along with the rest of the restored state
+		vault, err := domain.NewVault(mnemonic, passphrase, w.network)
+		if err != nil {
+			return fmt.Errorf("unable to create vault: %v", err)
+		}
+		defer vault.Lock()
 
-	if restore {
 		data := "addresses discovery"
 
 		chRes <- &InitWalletReply{
@@ -208,8 +227,7 @@ func (w *walletService) InitWallet(
 		allInfo := make(domain.AddressesInfo, 0)
 		feeInfo, marketInfoByAccount, err := w.restoreVault(ctx, mnemonic, vault)
 		if err != nil {
-			chErr <- fmt.Errorf("unable to restore vault: %v", err)
-			return
+			return fmt.Errorf("unable to restore vault: %v", err)
 		}
 		chRes <- &InitWalletReply{
 			Status: Done,
@@ -224,8 +242,7 @@ func (w *walletService) InitWallet(
 		// restore unspents
 		unspents, err := w.restoreUnspents(allInfo, chRes)
 		if err != nil {
-			chErr <- fmt.Errorf("unable to restore unspents: %v", err)
-			return
+			return fmt.Errorf("unable to restore unspents: %v", err)
 		}
 
 		// group unspents by address to facilitate market restoration
@@ -239,18 +256,18 @@ func (w *walletService) InitWallet(
 		markets := make([]*domain.Market, mLen, mLen)
 		i := 0
 		for accountIndex, info := range marketInfoByAccount {
-			market, err := w.restoreMarket(ctx, accountIndex, info, unspentsByAddress)
+			market, err := w.restoreMarket(accountIndex, info, unspentsByAddress)
 			if err != nil {
-				chErr <- fmt.Errorf("unable to restore market: %v", err)
-				return
+				return fmt.Errorf("unable to restore market: %v", err)
 			}
 			markets[i] = market
 			i++
 		}
 
-		if err := w.persistRestoredState(ctx, vault, unspents, markets); err != nil {
-			chErr <- fmt.Errorf("unable to persist restored state: %v", err)
-			return
+		if err := w.persistRestoredState(
+			ctx, mnemonic, passphrase, vault, unspents, markets,
+		); err != nil {
+			return fmt.Errorf("unable to persist restored state: %v", err)
 		}
 
 		go startObserveUnconfirmedUnspents(w.blockchainListener, unspents)
@@ -273,11 +290,7 @@ func (w *walletService) InitWallet(
 		Method:     InitWallet,
 		CurrentPwd: passphrase,
 	}
-	w.setInitialized(true)
-	if w.isSyncing() {
-		w.setSyncing(false)
-	}
-	log.Debug("done")
+	return nil
 }
 
 func (w *walletService) UnlockWallet(
@@ -585,11 +598,24 @@ func (w *walletService) isSyncing() bool {
 	return w.walletIsSyncing
 }
 
-func (w *walletService) setSyncing(val bool) {
+// beginInit returns whether the initialization of the wallet can start.
+func (w *walletService) beginInit() bool {
 	w.lock.Lock()
 	defer w.lock.Unlock()
 
-	w.walletIsSyncing = val
+	if w.walletInitialized || w.walletIsSyncing {
+		return false
+	}
+	w.walletIsSyncing = true
+	return true
+}
+
+func (w *walletService) endInit(initialized bool) {
+	w.lock.Lock()
+	defer w.lock.Unlock()
+
+	w.walletInitialized = initialized
+	w.walletIsSyncing = false
 }
 
 func (w *walletService) isInitialized() bool {
@@ -730,15 +756,11 @@ func (w *walletService) restoreMarketAccounts(
 }
 
 func (w *walletService) restoreMarket(
-	ctx context.Context,
 	accountIndex int,
 	info domain.AddressesInfo,
 	unspentsByAddress map[string][]domain.Unspent,
 ) (*domain.Market, error) {
-	market, err := w.repoManager.MarketRepository().GetOrCreateMarket(ctx, &domain.Market{
-		AccountIndex: accountIndex,
-		Fee:          w.marketFee,
-	})
+	market, err := domain.NewMarket(accountIndex, w.marketFee)
 	if err != nil {
 		return nil, err
 	}
@@ -765,6 +787,8 @@ func (w *walletService) restoreMarket(
 
 func (w *walletService) persistRestoredState(
 	ctx context.Context,
+	mnemonic []string,
+	passphrase string,
 	vault *domain.Vault,
 	unspents []domain.Unspent,
 	markets []*domain.Market,
@@ -773,7 +797,12 @@ func (w *walletService) persistRestoredState(
 		ctx,
 		false,
 		func(ctx context.Context) (interface{}, error) {
-			// update changes to vault
+			// create the vault and update its changes
+			if _, err := w.repoManager.VaultRepository().GetOrCreateVault(
+				ctx, mnemonic, passphrase, w.network,
+			); err != nil {
+				return nil, fmt.Errorf("unable to create the vault: %s", err)
+			}
 			if err := w.repoManager.VaultRepository().UpdateVault(
 				ctx,
 				func(v *domain.Vault) (*domain.Vault, error) {
@@ -783,8 +812,13 @@ func (w *walletService) persistRestoredState(
 				return nil, fmt.Errorf("unable to persist changes to the vault repo: %s", err)
 			}
 
-			// update changes to markets
+			// create the markets and update their changes
 			for _, m := range markets {
+				if _, err := w.repoManager.MarketRepository().GetOrCreateMarket(
+					ctx, m,
+				); err != nil {
+					return nil, fmt.Errorf("unable to create the market: %s", err)
+				}
 				if err := w.repoManager.MarketRepository().UpdateMarket(
 					ctx,
 					m.AccountIndex,
-- 
2.43.0


From 875677d416880a227e580b5886e77cfae80748f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 39/42] fix: stop the restoration of the wallet when its client
 is gone, instead of blocking forever

---
 internal/core/application/wallet_service.go | 43 +++++++++++++++------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 0ce04db..437418e 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -219,9 +219,11 @@ func (w *walletService) initWallet(
 
 		data := "addresses discovery"
 
-		chRes <- &InitWalletReply{
+		if err := sendReply(ctx, chRes, &InitWalletReply{
 			Status: Processing,
 			Data:   data,
+		}); err != nil {
+			return err
 		}
 
 		allInfo := make(domain.AddressesInfo, 0)
@@ -229,9 +231,11 @@ func (w *walletService) initWallet(
 		if err != nil {
 			return fmt.Errorf("unable to restore vault: %v", err)
 		}
-		chRes <- &InitWalletReply{
+		if err := sendReply(ctx, chRes, &InitWalletReply{
 			Status: Done,
 			Data:   data,
+		}); err != nil {
+			return err
 		}
 
 		allInfo = append(allInfo, feeInfo...)
@@ -240,7 +244,7 @@ func (w *walletService) initWallet(
 		}
 
 		// restore unspents
-		unspents, err := w.restoreUnspents(allInfo, chRes)
+		unspents, err := w.restoreUnspents(ctx, allInfo, chRes)
 		if err != nil {
 			return fmt.Errorf("unable to restore unspents: %v", err)
 		}
@@ -886,37 +890,52 @@ type unspentInfo struct {
 	err      error
 }
 
+// sendReply sends the reply unless the client of the call is gone.
+func sendReply(
+	ctx context.Context, chRes chan *InitWalletReply, reply *InitWalletReply,
+) error {
+	select {
+	case chRes <- reply:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
 func (w *walletService) restoreUnspents(
+	ctx context.Context,
 	info domain.AddressesInfo,
 	chRes chan *InitWalletReply,
 ) ([]domain.Unspent, error) {
-	chUnspentsInfo := make(chan unspentInfo)
+	chUnspentsInfo := make(chan unspentInfo, len(info))
 	unspents := make([]domain.Unspent, 0)
 	cb := circuitbreaker.NewCircuitBreaker()
 	wg := &sync.WaitGroup{}
 	wg.Add(len(info))
 
-	go func() {
-		wg.Wait()
-		close(chUnspentsInfo)
-	}()
-
 	for i := range info {
 		in := info[i]
 		path := strings.Split(in.DerivationPath, "/")
 		addressIndex, _ := strconv.Atoi(path[len(path)-1])
-		chRes <- &InitWalletReply{
+		if err := sendReply(ctx, chRes, &InitWalletReply{
 			AccountIndex: in.AccountIndex,
 			AddressIndex: addressIndex,
 			Status:       Processing,
 			Data: fmt.Sprintf(
 				"account %d index %d", in.AccountIndex, addressIndex,
 			),
+		}); err != nil {
+			return nil, err
 		}
 		go w.restoreUnspentsForAddress(cb, in, chUnspentsInfo, wg)
 		time.Sleep(1 * time.Millisecond)
 	}
 
+	go func() {
+		wg.Wait()
+		close(chUnspentsInfo)
+	}()
+
 	for r := range chUnspentsInfo {
 		if r.err != nil {
 			return nil, r.err
@@ -926,7 +945,7 @@ func (w *walletService) restoreUnspents(
 
 		path := strings.Split(r.info.DerivationPath, "/")
 		addressIndex, _ := strconv.Atoi(path[len(path)-1])
-		chRes <- &InitWalletReply{
+		if err := sendReply(ctx, chRes, &InitWalletReply{
 			AccountIndex: r.info.AccountIndex,
 			AddressIndex: addressIndex,
 			Status:       Done,
@@ -935,6 +954,8 @@ func (w *walletService) restoreUnspents(
 				r.info.AccountIndex,
 				addressIndex,
 			),
+		}); err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 460be0fda2ba4873bc2f7923d72ff0833726bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 40/42] fix: do not lose the error of the initialization of the
 wallet

---
 internal/interfaces/grpc/handler/wallet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/handler/wallet.go b/internal/interfaces/grpc/handler/wallet.go
index 51b3e73..419206e 100644
--- a/internal/interfaces/grpc/handler/wallet.go
+++ b/internal/interfaces/grpc/handler/wallet.go
@@ -121,7 +121,7 @@ func (w walletHandler) initWallet(
 			return err
 		case reply, ok := <-chReplies:
 			if !ok {
-				return nil
+				return <-chErr
 			}
 			if err := stream.Send(&pb.InitWalletReply{
 				Account: uint64(reply.AccountIndex),
-- 
2.43.0


From 8769232722628dfc289d79362c628f326a5f0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 41/42] fix: show the fixed fees a trade was agreed at in the
 list of trades

---
 internal/core/application/operator_service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index c9beefa..a422054 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1424,7 +1424,9 @@ func tradeToTradeInfo(
 				QuoteAsset: trade.MarketQuoteAsset,
 			},
 			Fee{
-				BasisPoint: trade.MarketFee,
+				BasisPoint:    trade.MarketFee,
+				FixedBaseFee:  trade.MarketFixedBaseFee,
+				FixedQuoteFee: trade.MarketFixedQuoteFee,
 			},
 		},
 		Price:            Price(trade.MarketPrice),
-- 
2.43.0


From ac4fc9db5c89bef4862134d23c8a1cf827a76823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:58 +0000
Subject: [PATCH 42/42] fix: repeat the storing of a price and the removal of a
 market that conflict with another write

---
 .../db/badger/market_repository_impl.go       | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index 2d05b59..02ed12b 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -374,10 +374,16 @@ func (m marketRepositoryImpl) updatePriceByAccountIndex(ctx context.Context, acc
 			prices,
 		)
 	} else {
-		err = m.priceStore.Upsert(
-			accountIndex,
-			prices,
-		)
+		// repeated in case of conflicts with other updates of the same price.
+		for {
+			err = m.priceStore.Upsert(
+				accountIndex,
+				prices,
+			)
+			if !isTransactionConflict(err) {
+				break
+			}
+		}
 	}
 
 	if err != nil {
@@ -400,14 +406,10 @@ func (m marketRepositoryImpl) DeleteMarket(
 	ctx context.Context,
 	accountIndex int,
 ) error {
-	var err error
-
-	if ctx.Value("tx") != nil {
+	err := atomically(ctx, m.store, func(ctx context.Context) error {
 		tx := ctx.Value("tx").(*badger.Txn)
-		err = m.store.TxDelete(tx, accountIndex, domain.Market{})
-	} else {
-		err = m.store.Delete(accountIndex, domain.Market{})
-	}
+		return m.store.TxDelete(tx, accountIndex, domain.Market{})
+	})
 	if err != nil && err != badgerhold.ErrNotFound {
 		return err
 	}
-- 
2.43.0

