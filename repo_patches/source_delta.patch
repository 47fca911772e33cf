From dc860d45589b1121d02781f5939d204a4359f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 01/44] fix: report a second elided amount instead of dropping
 the posting

---
 parser/transactionbuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 317b6f3..4d2f827 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -111,7 +111,9 @@ func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, ite
 
 		// Accounts start a posting, so check if we need to start a new one
 		if len(tb.currentPosting.AccountPath) != 0 {
-			t.AddPosting(tb.currentPosting)
+			if err := t.AddPosting(tb.currentPosting); err != nil {
+				return err
+			}
 			tb.currentPosting = journal.NewPosting()
 		}
 
-- 
2.43.0


From 3e011e6117a5416a294ebbe04a0caf6e4ee83e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 02/44] fix: reject a budget entry whose implied source cannot
 be added

---
 parser/transactionbuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 4d2f827..f0bfb80 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -229,7 +229,9 @@ func (tb *transactionBuilder) endNormalTransaction(t *journal.Transaction, p Par
 			source := journal.NewPosting()
 			source.Transaction = t
 			source.AccountPath = journal.BudgetRootID
-			t.AddPosting(source)
+			if err := t.AddPosting(source); err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 2b7fa45c0c77b2929feb6dfcf5f013ab7ca44ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 03/44] fix: give an elided posting its amount when the others
 already balance

---
 journal/transaction.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index 6fd9857..1d82438 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -108,11 +108,11 @@ func (t *Transaction) Close() error {
 		sum += p.Amount.Quantity
 	}
 
-	if sum != 0 {
-		if t.postingWithElidedAmount == nil {
-			return errors.New("transaction does not balance")
-		}
+	if sum != 0 && t.postingWithElidedAmount == nil {
+		return errors.New("transaction does not balance")
+	}
 
+	if t.postingWithElidedAmount != nil {
 		// NB: setting the commodity like this will not work with multiple currencies
 		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
 	}
-- 
2.43.0


From a7a1051cbc92bfddf7dfe6207734daf5ac4fd61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 04/44] fix: do not invent a posting for a transaction that has
 none

---
 parser/transactionbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index f0bfb80..09b3775 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -208,7 +208,7 @@ func (tb *transactionBuilder) endTransaction(p Parser) error {
 
 func (tb *transactionBuilder) endNormalTransaction(t *journal.Transaction, p Parser) error {
 	// Make sure we add the last open posting
-	if tb.currentPosting != nil {
+	if tb.currentPosting != nil && len(tb.currentPosting.AccountPath) != 0 {
 		if err := t.AddPosting(tb.currentPosting); err != nil {
 			return err
 		}
-- 
2.43.0


From 367d497f432d75caab2c4bc3ed8a0421db82a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 05/44] fix: report an empty amount instead of crashing

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3e9b6cc..b4ed050 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -142,6 +143,10 @@ func parseDate(content []rune) (time.Time, error) {
 }
 
 func parseAmount(content []rune) (int64, error) {
+	if len(content) == 0 {
+		return 0, errors.New("amount is missing")
+	}
+
 	// Handle signs
 	firstRune := content[0]
 	var multiplier int64
-- 
2.43.0


From 7a839195523629459902e1b01848cdcf3bf06c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 06/44] fix: read the decimals of an amount by their place
 value

---
 parser/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b4ed050..4d62ed0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -186,10 +186,18 @@ func parseAmount(content []rune) (int64, error) {
 		if err != nil {
 			return 0, err
 		}
-		decimal, err = strconv.ParseInt(string(content[decimalPosition+1:]), 10, 64)
+		fraction := string(content[decimalPosition+1:])
+		if len(fraction) > 2 {
+			return 0, fmt.Errorf("too many decimal places: %s", string(content))
+		}
+		decimal, err = strconv.ParseInt(fraction, 10, 64)
 		if err != nil {
 			return 0, err
 		}
+		if len(fraction) == 1 {
+			// .5 is fifty hundredths
+			decimal *= 10
+		}
 	}
 
 	quantity := multiplier * (whole*100 + decimal)
-- 
2.43.0


From b4520784b8a1fc2a39db8b5d6d6b5310749d8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 07/44] fix: reject an amount with more than one sign

---
 parser/parser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4d62ed0..30c3dec 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -170,19 +170,20 @@ func parseAmount(content []rune) (int64, error) {
 	}
 
 	// Find whole and decimal
-	var whole int64
-	var decimal int64
+	// (unsigned, because the sign has been handled: a second one is malformed)
+	var whole uint64
+	var decimal uint64
 	var err error
 	if decimalPosition == -1 {
 		// TODO: consider https://stackoverflow.com/a/29255836
-		whole, err = strconv.ParseInt(string(content), 10, 64)
+		whole, err = strconv.ParseUint(string(content), 10, 64)
 		decimal = 0
 
 		if err != nil {
 			return 0, err
 		}
 	} else {
-		whole, err = strconv.ParseInt(string(content[:decimalPosition]), 10, 64)
+		whole, err = strconv.ParseUint(string(content[:decimalPosition]), 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -190,7 +191,7 @@ func parseAmount(content []rune) (int64, error) {
 		if len(fraction) > 2 {
 			return 0, fmt.Errorf("too many decimal places: %s", string(content))
 		}
-		decimal, err = strconv.ParseInt(fraction, 10, 64)
+		decimal, err = strconv.ParseUint(fraction, 10, 64)
 		if err != nil {
 			return 0, err
 		}
@@ -200,7 +201,7 @@ func parseAmount(content []rune) (int64, error) {
 		}
 	}
 
-	quantity := multiplier * (whole*100 + decimal)
+	quantity := multiplier * int64(whole*100+decimal)
 
 	return quantity, nil
 }
-- 
2.43.0


From 9cd93b96edbcff68f502a20ef0598d4b146b42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 08/44] fix: reject an amount too large to store instead of
 wrapping it

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 30c3dec..eb46bb4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"time"
@@ -201,6 +202,10 @@ func parseAmount(content []rune) (int64, error) {
 		}
 	}
 
+	if whole > (math.MaxInt64-decimal)/100 {
+		return 0, fmt.Errorf("amount is too large: %s", string(content))
+	}
+
 	quantity := multiplier * int64(whole*100+decimal)
 
 	return quantity, nil
-- 
2.43.0


From a4ff030dfd2d3ece3308e24f6f7a157c39960f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 09/44] fix: report a date that is too short instead of
 crashing

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index eb46bb4..3e58b85 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -125,6 +125,10 @@ func parseDate(content []rune) (time.Time, error) {
 	var date time.Time
 	var err error
 
+	if len(content) < 5 {
+		return time.Time{}, fmt.Errorf("date is malformed: %s", s)
+	}
+
 	switch content[4] {
 	case '-':
 		date, err = time.Parse(dashDateFormat, s)
-- 
2.43.0


From 5a66ba4fa2f3287fa4ba51bdc5828276316f13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 10/44] fix: do not crash on an indented line outside of a
 transaction

---
 parser/transactionbuilder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 09b3775..b3e1901 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -48,6 +48,14 @@ func (tb *transactionBuilder) beginTransaction(t transactionType) {
 }
 
 func (tb *transactionBuilder) build(t itemType, content []rune) error {
+	// Outside of a transaction there is nothing to attach an item to
+	if tb.currentPosting == nil {
+		if t == commentItem {
+			return nil
+		}
+		return fmt.Errorf("unexpected %s outside of a transaction", t)
+	}
+
 	switch tb.transactionType {
 	case normalTransaction:
 		if err := tb.buildNormalTransaction(tb.transaction, t, content); err != nil {
-- 
2.43.0


From 49ba6ed97cf1329558ed5e5a47b61dfd88de266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 11/44] fix: attach comments in a periodic transaction to that
 transaction

---
 parser/transactionbuilder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index b3e1901..8b0870c 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -74,13 +74,13 @@ func (tb *transactionBuilder) build(t itemType, content []rune) error {
 func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, item itemType, content []rune) error {
 	switch item {
 	case transactionHeaderCommentItem:
-		tb.transaction.HeaderNote = string(content)
+		t.HeaderNote = string(content)
 	case commentItem:
 		// check if we've got a posting to attach the comment to
 		if len(tb.currentPosting.AccountPath) != 0 {
 			tb.currentPosting.AddComment(string(content))
 		} else {
-			tb.transaction.AddNote(string(content))
+			t.AddNote(string(content))
 		}
 	case dateItem:
 		date, err := parseDate(content)
-- 
2.43.0


From 52d4bd4734024d157b602ed0cad966d09352eb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 12/44] fix: do not crash on an expense posted to the top level
 account

---
 journal/account.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/journal/account.go b/journal/account.go
index 15a2447..c049c14 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -112,6 +112,10 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 // FindOrCreateAccount searches the Account's children for one matching the components,
 // creating children as necessary if it does not find matching ones
 func (a *Account) FindOrCreateAccount(components []string) *Account {
+	if len(components) == 0 {
+		return a
+	}
+
 	child, remainingComponents := a.findChild(components)
 
 	// If there were no remaining accounts, we found the deepest
-- 
2.43.0


From 2e9cff7e68153e22bd789c9e7e72dfc5ed31a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 13/44] fix: keep accounts with a balance beneath a parent that
 totals zero

---
 journal/account.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index c049c14..cd8680d 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -194,16 +194,10 @@ func (a *Account) findAccounts(matcher func(a Account) bool, found []*Account) [
 }
 
 func (a *Account) RemoveEmptyChildren() {
-	matcher := func(a Account) bool {
-		return a.Amount.Quantity == 0
-	}
-	matching := a.FindAccounts(matcher)
-	for _, m := range matching {
-		if m.Name == RootID {
-			continue
-		}
-		m.Unlink()
-	}
+	// An account whose own total is zero stays if it leads to one that is not
+	a.RemoveChildren(func(a Account) bool {
+		return a.Amount.Quantity != 0
+	})
 }
 
 // Unlink removes this account from it's parents
-- 
2.43.0


From a4a46a4dda1ff236eba71857ba9bcefb224ddf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 14/44] fix: do not share path components between sibling
 accounts

---
 journal/account.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/journal/account.go b/journal/account.go
index cd8680d..b82a236 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -101,7 +101,7 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 	if parent == nil || parent.Name == RootID || parent.Name == BudgetRootID {
 		child.PathComponents = []string{components[0]}
 	} else {
-		child.PathComponents = append(parent.PathComponents, components[0])
+		child.PathComponents = append(append([]string{}, parent.PathComponents...), components[0])
 	}
 
 	child.Path = child.CreatePath()
-- 
2.43.0


From c0a339a9c619b02a3768639d36171509feca6fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 15/44] fix: print the children of an account in a stable order

---
 journal/account.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index b82a236..a92a8b2 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -45,8 +45,8 @@ func (a *Account) asString(level int) string {
 	}
 
 	// Print the name of this account's children at the next level
-	for _, c := range a.Children {
-		s = fmt.Sprintf("%s\n%s", s, c.asString(level+1))
+	for _, name := range a.SortedChildNames() {
+		s = fmt.Sprintf("%s\n%s", s, a.Children[name].asString(level+1))
 	}
 
 	return s
-- 
2.43.0


From 6243c7656084646bb6db71d1366192350c5b4800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 16/44] fix: display large amounts exactly

---
 journal/amount.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/journal/amount.go b/journal/amount.go
index c876e15..1b4f86f 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -24,8 +24,14 @@ func (a Amount) String() string {
 
 // DisplayableQuantity formats the Amount's commodity and quantity
 func (a Amount) DisplayableQuantity(withCommodity bool) string {
-	q := float64(a.Quantity) / 100
-	amount := fmt.Sprintf("%.2f", q)
+	// Integers only, because a float cannot hold every quantity
+	sign := ""
+	q := uint64(a.Quantity)
+	if a.Quantity < 0 {
+		sign = "-"
+		q = -q
+	}
+	amount := fmt.Sprintf("%s%d.%02d", sign, q/100, q%100)
 	if withCommodity {
 		return fmt.Sprintf("%s%s", a.Commodity, amount)
 	}
-- 
2.43.0


From d429a54dab2577d18a384e16c74b81aa1d159679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 17/44] fix: return to the including file after a nested
 include

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3e58b85..c419820 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -84,7 +84,7 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 		}
 
 		// Drop the file from the slice
-		p.journalFiles = p.journalFiles[:1]
+		p.journalFiles = p.journalFiles[:len(p.journalFiles)-1]
 	case dateItem:
 		// This will start a transaction so check if we need to close a previous one
 		// in case there is no empty line between transactions
-- 
2.43.0


From 66189ee5041eed068ccb37e896dcff35bc624f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 18/44] fix: close the open transaction before reading an
 included file

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index c419820..5ee34af 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -64,6 +64,11 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 			return err
 		}
 	case includeItem:
+		// The open transaction belongs to the including file
+		if err := p.transactionBuilder.endTransaction(*p); err != nil {
+			return err
+		}
+
 		path := string(content)
 
 		// Add the file to the slice
-- 
2.43.0


From f90fa049e79b8488d8ff95e6ede5a48d3f435de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 19/44] fix: report an include cycle instead of following it

---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 5ee34af..176361c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 	"strconv"
 	"time"
 
@@ -71,6 +72,13 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 
 		path := string(content)
 
+		// A file that is still being read cannot be read again
+		for _, open := range p.journalFiles {
+			if filepath.Clean(open) == filepath.Clean(path) {
+				return fmt.Errorf("file includes itself: %s", path)
+			}
+		}
+
 		// Add the file to the slice
 		p.journalFiles = append(p.journalFiles, path)
 
-- 
2.43.0


From 0f0f8d5bdb92f6b88148a17eec997976c32c6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 20/44] fix: leave an absolute include path as it is

---
 parser/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d39606d..041c572 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -175,8 +175,10 @@ func (l *lexer) lexIncludeDirective() error {
 
 	// We need to add any directory information here
 	// because the parser does not know about where we're including from
-	dir, _ := filepath.Split(l.locationHint)
-	fileToInclude = append([]rune(dir), fileToInclude...)
+	if !filepath.IsAbs(string(fileToInclude)) {
+		dir, _ := filepath.Split(l.locationHint)
+		fileToInclude = append([]rune(dir), fileToInclude...)
+	}
 
 	return l.parser(includeItem, fileToInclude)
 }
-- 
2.43.0


From cf528eb16c50be7ac74154aba7f38c65d1d2fdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 21/44] fix: keep the first character of a header comment

---
 parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 041c572..9ae27ab 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -383,6 +383,8 @@ func (l *lexer) takeToTabOrNextLineOrComment() []rune {
 		}
 
 		if isCommentIndicator(r) {
+			// Leave the indicator for whoever reads the comment
+			l.backup()
 			return trimSpace(runes)
 		}
 
-- 
2.43.0


From 7ce0aad79d29a626235c16fe47be760e0f563b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 22/44] fix: report a posting line that is not understood

---
 parser/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 9ae27ab..d94f3e6 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -280,6 +280,10 @@ func (l *lexer) lexPosting() error {
 	// If we didn't lex anything, we should reset the parser
 	l.backup()
 
+	if firstRune != eof {
+		return errors.New("unexpected posting")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 73f16d6569d590b43bd8a366c1115c9f34709202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 23/44] fix: say where an error at the end of a file was found

---
 parser/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d94f3e6..d0386fd 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -85,11 +85,11 @@ func (l *lexer) lex() error {
 				// Let the parser know we have reached the end of the file
 				parseError := l.parser(eofItem, nil)
 				if parseError != nil {
-					return parseError
+					return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, parseError)
 				}
 				break
 			}
-			return err
+			return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, err)
 		}
 		if isPrefix {
 			log.Fatalln("Unhandled split line (todo)")
-- 
2.43.0


From efca7e9ce85f1483f56f35dc959b9b5025093fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 24/44] fix: do not crash on an empty filter

---
 reporting/filter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reporting/filter.go b/reporting/filter.go
index 236b1da..8ce0eba 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -32,7 +32,12 @@ type Filter struct {
 func NewFilter(arg string) (Filter, error) {
 	filter := Filter{}
 
-	switch []rune(arg)[0] {
+	var prefix rune
+	if len(arg) > 0 {
+		prefix = []rune(arg)[0]
+	}
+
+	switch prefix {
 	case '@':
 		filter.FilterType = PayeeFilter
 		arg = arg[1:]
-- 
2.43.0


From 4a74616600828358eab03d1dd5b4f4e686444033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 25/44] fix: keep matched postings in the order they were
 written

---
 cmd/common.go       | 6 ++++--
 reporting/filter.go | 9 +++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/common.go b/cmd/common.go
index 94d9ae3..70137b0 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -154,8 +154,10 @@ func checkAgainstFilters(t *journal.Transaction) (matchedTransaction bool, posti
 			matchedPostings[p] = true
 		}
 	}
-	for k := range matchedPostings {
-		postings = append(postings, k)
+	for _, p := range t.Postings {
+		if matchedPostings[p] {
+			postings = append(postings, p)
+		}
 	}
 
 	return false, postings, nil
diff --git a/reporting/filter.go b/reporting/filter.go
index 8ce0eba..dfc724d 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -62,7 +62,6 @@ func NewFilter(arg string) (Filter, error) {
 }
 
 func (f Filter) MatchesTransactionHow(t journal.Transaction) (matchesPayee, matchesTransactionNote bool, matchedPostings []*journal.Posting) {
-	mp := make(map[*journal.Posting]bool)
 	switch f.FilterType {
 	case PayeeFilter:
 		matchesPayee = f.regex.MatchString(t.Payee)
@@ -78,22 +77,20 @@ func (f Filter) MatchesTransactionHow(t journal.Transaction) (matchesPayee, matc
 			if f.FilterType == NoteFilter {
 				for _, n := range p.Comments {
 					if f.regex.MatchString(n) {
-						mp[p] = true
+						matchedPostings = append(matchedPostings, p)
+						break
 					}
 				}
 			}
 			if f.FilterType == AccountNameFilter {
 				if f.regex.MatchString(p.AccountPath) {
-					mp[p] = true
+					matchedPostings = append(matchedPostings, p)
 				}
 				// TODO: match child accounts
 			}
 		}
 	}
 
-	for k := range mp {
-		matchedPostings = append(matchedPostings, k)
-	}
 	return
 }
 
-- 
2.43.0


From 96d999379550950d55e9db7f7b4b71c8e4b85fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 26/44] fix: compare transaction dates with the calendar day
 asked for

---
 cmd/common.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/common.go b/cmd/common.go
index 70137b0..ca0853c 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -120,11 +120,24 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 		end = time.Now().AddDate(0, 0, 1)
 	}
 
+	// Transactions are dated midnight UTC, so compare them with that of the same day
+	if !start.IsZero() {
+		start = midnightUTC(start)
+	}
+	if !end.IsZero() {
+		end = midnightUTC(end)
+	}
+
 	withinRange := (t.Date.Equal(start) || t.Date.After(start)) && (end.IsZero() || t.Date.Before(end))
 
 	return withinRange, nil
 }
 
+// midnightUTC returns the start of the calendar day of the date
+func midnightUTC(date time.Time) time.Time {
+	return time.Date(date.Year(), date.Month(), date.Day(), 0, 0, 0, 0, time.UTC)
+}
+
 // checkAgainstFilters lets you know if the transaction matched the filters or
 // (in the case that transaction wide attributes didn't match)
 // which postings matched the filters
-- 
2.43.0


From 8ecf9db69c5f047b3e296b26288bfc517f6277cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 27/44] fix: list the journal files in a stable order

---
 cmd/stats.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/stats.go b/cmd/stats.go
index 98c7926..baa3670 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -183,7 +183,12 @@ func (js *statisticsJournal) report() {
 
 	// Report the files
 	fmt.Printf("Transactions found in %d files:\n", len(js.journalFiles))
+	files := make([]string, 0, len(js.journalFiles))
 	for p := range js.journalFiles {
+		files = append(files, p)
+	}
+	sort.Strings(files)
+	for _, p := range files {
 		fmt.Printf("  %s\n", p)
 	}
 
-- 
2.43.0


From 9a869a7afa6cb7140bdea4ec2d76c583a2420737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 28/44] fix: report a finite rate for a journal of a single day

---
 cmd/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index baa3670..9502344 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -202,7 +202,7 @@ func (js *statisticsJournal) report() {
 	fmt.Printf("Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-	transactionsPerDay := float64(js.transactionCount) / days
+	transactionsPerDay := float64(js.transactionCount) / math.Max(1, days)
 	fmt.Printf("Transactions:\t\t%d (%.1f per day)\n", js.transactionCount, transactionsPerDay)
 
 	// Report number of unique accounts
-- 
2.43.0


From a6b6d0921d6e80d316687a13762294149bb7c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 29/44] fix: average the age of money over the ages it sums

---
 cmd/stats.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 9502344..b97e222 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -158,12 +158,11 @@ expenseLoop:
 		}
 	}
 
-	rangeCap := 0
-	if len(ages) > 20 {
-		rangeCap = 11
+	if len(ages) > 10 {
+		ages = ages[len(ages)-10:] // we only care about the final 10
 	}
 	var summedAges time.Duration = 0
-	for _, a := range ages[:len(ages)-rangeCap] { // we only care about the final 10
+	for _, a := range ages {
 		summedAges += a
 	}
 
-- 
2.43.0


From 02ca0b3961d179538375021e75a1e4e74ef29fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 30/44] fix: keep transactions of the same day in journal order

---
 cmd/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/print.go b/cmd/print.go
index 19e4f94..fef79a0 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -52,7 +52,7 @@ func (pj *printJournal) transactionHandler(t *journal.Transaction, _ string) err
 }
 
 func (pj *printJournal) prepare() {
-	sort.Slice(pj.transactions, func(i, j int) bool {
+	sort.SliceStable(pj.transactions, func(i, j int) bool {
 		return pj.transactions[i].Date.Before(pj.transactions[j].Date)
 	})
 }
-- 
2.43.0


From 2333565465d55973dacb9ef6ec42df39c47d5792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 31/44] fix: print budgeted and activity under their own
 headings

---
 cmd/budget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index a982ea5..e2adaf1 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -152,7 +152,7 @@ func (bp *budgetProcessor) report() {
 				panic(err)
 			}
 
-			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, expenseAccount.Amount, envelopeAccount.Amount, amount.DisplayableQuantity(true))
+			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
 		}
 
 		fmt.Println()
-- 
2.43.0


From 8f4dfea16cc091489223d25712209799d7261f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 32/44] fix: give every level of a budget its commodity

---
 journal/budget.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/journal/budget.go b/journal/budget.go
index da2cb3c..0089f85 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -105,6 +105,20 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 	expenseAccount := bm.ExpenseRoot.FindOrCreateAccount(pathComponents)
 	expenseAccount.Amount.Commodity = p.Amount.Commodity
 
+	// Set the commodity at every level of both
+	setCommodity := func(a *Account) error {
+		if a.Amount.Commodity == "" {
+			a.Amount.Commodity = p.Amount.Commodity
+		}
+		return nil
+	}
+	if err := envelopeAccount.WalkAncestors(setCommodity); err != nil {
+		return err
+	}
+	if err := expenseAccount.WalkAncestors(setCommodity); err != nil {
+		return err
+	}
+
 	if pt == EnvelopePosting {
 		// Add to the envelope account
 		envelopeAccount.Postings = append(envelopeAccount.Postings, p)
-- 
2.43.0


From 2be901011b9b09f65472b020af4fcbaa25a85e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 33/44] fix: exit with an error status when a report fails

---
 cmd/accounts.go | 9 ++++-----
 cmd/balance.go  | 6 +++---
 cmd/budget.go   | 6 +++---
 cmd/payees.go   | 9 ++++-----
 cmd/print.go    | 6 +++---
 cmd/stats.go    | 6 +++---
 6 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/cmd/accounts.go b/cmd/accounts.go
index ddf43d2..1816f4e 100644
--- a/cmd/accounts.go
+++ b/cmd/accounts.go
@@ -17,18 +17,17 @@ var accountsCmd = &cobra.Command{
 	Aliases:      []string{"acc", "a"},
 	Short:        "List all accounts",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		aj := newAccountsJournal()
 		th := dateCheckedTransactionHandler(aj.transactionHandler)
 		if err := parse(th, nil); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		if err := aj.prepare(); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		aj.report()
+		return nil
 	},
 }
 
diff --git a/cmd/balance.go b/cmd/balance.go
index b3f94ca..786c23d 100644
--- a/cmd/balance.go
+++ b/cmd/balance.go
@@ -19,12 +19,11 @@ var balanceCmd = &cobra.Command{
 	Aliases:      []string{"bal", "b"},
 	Short:        "Shows accounts and their balances",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		bp := newBalanceProcessor()
 		// TODO: swap periodic transaction handler to bp one
 		if err := parse(bp.transactionHandler, bp.journal.AddPeriodicTransaction); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 
 		prepareBalance(bp.journal)
@@ -34,6 +33,7 @@ var balanceCmd = &cobra.Command{
 			fmt.Println("would print budget here")
 			// report(*bp.journal.BudgetRoot, flattenTree, collapseOnlyChildren)
 		}
+		return nil
 	},
 }
 
diff --git a/cmd/budget.go b/cmd/budget.go
index e2adaf1..1f77312 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -15,14 +15,14 @@ var budgetCmd = &cobra.Command{
 	Aliases:      []string{"bud", "B"},
 	Short:        "Shows budget accounts and their balances",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		bp := newBudgetProcessor()
 		if err := parse(bp.transactionHandler, bp.periodicTransactionHandler); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		// prepareBalance(bp.journal)
 		bp.report()
+		return nil
 	},
 }
 
diff --git a/cmd/payees.go b/cmd/payees.go
index f7caf36..3200a77 100644
--- a/cmd/payees.go
+++ b/cmd/payees.go
@@ -19,18 +19,17 @@ var payeesCmd = &cobra.Command{
 	Aliases:      []string{"pay", "p"},
 	Short:        "List all payees",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, args []string) {
+	RunE: func(_ *cobra.Command, args []string) error {
 		pj := newPayeesJournal()
 		th := dateCheckedTransactionHandler(pj.transactionHandler)
 		if err := parse(th, nil); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		if err := pj.prepare(args); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		pj.report()
+		return nil
 	},
 }
 
diff --git a/cmd/print.go b/cmd/print.go
index fef79a0..8e5f8de 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -17,14 +17,14 @@ var printCmd = &cobra.Command{
 	Aliases:      []string{"p"},
 	Short:        "Shows transaction entries, sorted by date",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		pj := newPrintJournal()
 		if err := parse(pj.transactionHandler, nil); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		pj.prepare()
 		pj.report()
+		return nil
 	},
 }
 
diff --git a/cmd/stats.go b/cmd/stats.go
index b97e222..d3d4ab8 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -21,14 +21,14 @@ var statsCmd = &cobra.Command{
 	Aliases:      []string{"stats", "s"},
 	Short:        "Shows statistics about the journal",
 	SilenceUsage: true,
-	Run: func(_ *cobra.Command, _ []string) {
+	RunE: func(_ *cobra.Command, _ []string) error {
 		sj := newStatisticsJournal()
 		if err := parse(sj.transactionHandler, nil); err != nil {
-			fmt.Println(err)
-			return
+			return err
 		}
 		sj.prepare()
 		sj.report()
+		return nil
 	},
 }
 
-- 
2.43.0


From 88cd0f580d0270462b6471be8b85b81f63597599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 34/44] fix: apply the date range to budget entries

---
 cmd/budget.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/budget.go b/cmd/budget.go
index 1f77312..c466944 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -53,6 +53,14 @@ func (bp *budgetProcessor) periodicTransactionHandler(pt *journal.PeriodicTransa
 	// Handle budget allocations differently
 	// PeriodicTransaction with no interval are considered budget transactions
 	if pt.Period.Interval == journal.PNone {
+		withinRange, err := withinDateRange(&transactions[0])
+		if err != nil {
+			return err
+		}
+		if !withinRange {
+			return nil
+		}
+
 		for _, p := range transactions[0].Postings {
 			// if err := wireUpPosting(j.BudgetRoot, transaction, p); err != nil {
 			if err := bp.budget.AddPosting(p, journal.EnvelopePosting); err != nil {
-- 
2.43.0


From 34befce8e281658be51396db02c99f493eb0d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 35/44] fix: report text following a payee instead of losing
 its first character

---
 parser/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index d0386fd..d6b53f2 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -221,8 +221,12 @@ func (l *lexer) lexTransactionHeader() error {
 		return err
 	}
 
+	l.consumeSpace()
 	comment := l.takeToNextLine()
 	if len(comment) > 0 {
+		if !isCommentIndicator(comment[0]) {
+			return errors.New("unexpected text following payee")
+		}
 		c := trimSpaceStart(comment[1:])
 		if err = l.parser(transactionHeaderCommentItem, c); err != nil {
 			return err
-- 
2.43.0


From 3e55791033f150fc06e5d73f19fc90ced7a5a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 36/44] fix: keep the comment following the amount of a posting

---
 parser/lexer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d6b53f2..e958e84 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -241,7 +241,6 @@ func (l *lexer) lexPosting() error {
 
 	firstRune := l.next()
 
-	// TODO: handle comments in postings
 	if isCommentIndicator(firstRune) {
 		comment := l.takeToNextLine()
 		return l.parser(commentItem, comment)
@@ -278,6 +277,16 @@ func (l *lexer) lexPosting() error {
 			return err
 		}
 
+		// Anything after the amount is a comment on the posting
+		l.consumeSpace()
+		comment := l.takeToNextLine()
+		if len(comment) > 0 {
+			if !isCommentIndicator(comment[0]) {
+				return errors.New("unexpected text following amount")
+			}
+			return l.parser(commentItem, trimSpaceStart(comment[1:]))
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From 5f2e28906bae8ab50bcf257bfd2ee82ca81de640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 37/44] fix: reject a year that is not four digits

---
 parser/dates.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/dates.go b/parser/dates.go
index ce7fb68..b9c7fd5 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"errors"
 	"fmt"
-	"strconv"
 	"strings"
 	"time"
 )
@@ -52,12 +51,12 @@ func parseYear(date string) (time.Time, error) {
 		return time.Time{}, fmt.Errorf("could not parse year: '%s'", date)
 	}
 
-	year, err := strconv.Atoi(date)
+	parsed, err := time.ParseInLocation("2006", date, time.Local)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	return time.Date(year, time.January, 1, 0, 0, 0, 0, time.Local), nil
+	return parsed, nil
 }
 
 // parseYearMonth expects dates in the format 2020/06
-- 
2.43.0


From b5badc5ac5f6317d3990c27387f2a66295d523b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:03 +0000
Subject: [PATCH 38/44] fix: refuse text following an include directive or a
 period

---
 parser/lexer.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index e958e84..cecb9dd 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -173,6 +173,10 @@ func (l *lexer) lexIncludeDirective() error {
 		return errors.New("could not lex include directive")
 	}
 
+	if err := l.expectCommentOrNextLine(); err != nil {
+		return err
+	}
+
 	// We need to add any directory information here
 	// because the parser does not know about where we're including from
 	if !filepath.IsAbs(string(fileToInclude)) {
@@ -190,6 +194,11 @@ func (l *lexer) lexPeriodTransactionHeader() error {
 	}
 
 	period := l.takeToTabOrNextLineOrComment()
+
+	if err := l.expectCommentOrNextLine(); err != nil {
+		return err
+	}
+
 	return l.parser(periodItem, period)
 }
 
@@ -382,6 +391,15 @@ func (l *lexer) takeToNextLine() []rune {
 	}
 }
 
+// Anything but a comment in the rest of the line is an error
+func (l *lexer) expectCommentOrNextLine() error {
+	l.consumeSpace()
+	if rest := l.takeToNextLine(); len(rest) > 0 && !isCommentIndicator(rest[0]) {
+		return fmt.Errorf("unexpected text: %s", string(rest))
+	}
+	return nil
+}
+
 func (l *lexer) takeToTabOrNextLineOrComment() []rune {
 	runes := make([]rune, 0, runeBufferCapacity)
 	trimSpace := func(runes []rune) []rune {
-- 
2.43.0


From 8fe83158ecde22c23023000745c3a989bcabc3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 39/44] fix: an account with a total of no commodity does not
 silently turn into another
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Five without a commodity followed by £3 became £8, while the other order was
reported.
---
 journal/journal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/journal/journal.go b/journal/journal.go
index efedd6f..8509fbd 100644
--- a/journal/journal.go
+++ b/journal/journal.go
@@ -89,7 +89,7 @@ func wireUpPosting(root *Account, transaction *Transaction, p *Posting) error {
 	// Add the posting's amount to the account and all of its ancestors
 	add := func(a *Account) error {
 		// NB: setting the commodity like this will not work with multiple currencies
-		if a.Amount.Commodity == "" {
+		if a.Amount.Commodity == "" && a.Amount.Quantity == 0 {
 			a.Amount.Commodity = p.Amount.Commodity
 		}
 		if err := a.Amount.Add(*p.Amount); err != nil {
-- 
2.43.0


From 89659869d2a9c0f9933e1928e389865214a7f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 40/44] fix: a budget envelope does not silently change its
 commodity

The commodity of an envelope was overwritten with that of every posting, and
a total of no commodity took that of the next posting, so amounts of different
commodities were added without a word.
---
 journal/budget.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/journal/budget.go b/journal/budget.go
index 0089f85..b8625ee 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -90,24 +90,22 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 	p.Account = root.FindOrCreateAccount(pathComponents)
 
 	// Set commodities
-	if bm.EnvelopeRoot.Amount.Commodity == "" {
+	if bm.EnvelopeRoot.Amount.Commodity == "" && bm.EnvelopeRoot.Amount.Quantity == 0 {
 		bm.EnvelopeRoot.Amount.Commodity = p.Amount.Commodity
 	}
-	if bm.ExpenseRoot.Amount.Commodity == "" {
+	if bm.ExpenseRoot.Amount.Commodity == "" && bm.ExpenseRoot.Amount.Quantity == 0 {
 		bm.ExpenseRoot.Amount.Commodity = p.Amount.Commodity
 	}
 
 	// Make the envelope account
 	envelopeAccount := bm.EnvelopeRoot.FindOrCreateAccount(pathComponents)
-	envelopeAccount.Amount.Commodity = p.Amount.Commodity
 
 	// Make the expense account
 	expenseAccount := bm.ExpenseRoot.FindOrCreateAccount(pathComponents)
-	expenseAccount.Amount.Commodity = p.Amount.Commodity
 
 	// Set the commodity at every level of both
 	setCommodity := func(a *Account) error {
-		if a.Amount.Commodity == "" {
+		if a.Amount.Commodity == "" && a.Amount.Quantity == 0 {
 			a.Amount.Commodity = p.Amount.Commodity
 		}
 		return nil
@@ -178,10 +176,10 @@ func (b *Budget) addIncomePosting(p *Posting) error {
 		bm = newBudgetMonth()
 	}
 
-	if bm.Income.Amount.Commodity == "" {
+	if bm.Income.Amount.Commodity == "" && bm.Income.Amount.Quantity == 0 {
 		bm.Income.Amount.Commodity = p.Amount.Commodity
 	}
-	if bm.EnvelopeRoot.Amount.Commodity == "" {
+	if bm.EnvelopeRoot.Amount.Commodity == "" && bm.EnvelopeRoot.Amount.Quantity == 0 {
 		bm.EnvelopeRoot.Amount.Commodity = p.Amount.Commodity
 	}
 
-- 
2.43.0


From 71e2d4341c0a7e7a4ca8e78b495fd3b91141f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 41/44] fix: a line that is too long is reported with its file
 and number

---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index cecb9dd..e4d4247 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -92,7 +92,7 @@ func (l *lexer) lex() error {
 			return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, err)
 		}
 		if isPrefix {
-			log.Fatalln("Unhandled split line (todo)")
+			return fmt.Errorf("%s:%d\n%w", l.locationHint, l.currentLine, errors.New("line is too long"))
 		}
 
 		// Reset the positions
-- 
2.43.0


From 1556a082366e40137c36dbec34d9f984ca24f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 42/44] fix: statistics count the year 1 as a date

---
 cmd/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index d3d4ab8..3827bd7 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -78,12 +78,12 @@ func (js *statisticsJournal) transactionHandler(t *journal.Transaction, path str
 	js.transactionCount++
 
 	// Check start date
-	if js.firstTransactionDate.IsZero() || t.Date.Before(js.firstTransactionDate) {
+	if js.transactionCount == 1 || t.Date.Before(js.firstTransactionDate) {
 		js.firstTransactionDate = t.Date
 	}
 
 	// Check end date
-	if js.lastTransactionDate.IsZero() || t.Date.After(js.lastTransactionDate) {
+	if js.transactionCount == 1 || t.Date.After(js.lastTransactionDate) {
 		js.lastTransactionDate = t.Date
 	}
 
-- 
2.43.0


From 5e3c13594d7d7eb800176aad132b85dfeb0278f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 43/44] fix: compute long spans in the statistics without
 overflow

---
 cmd/stats.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 3827bd7..55e3ef1 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -132,7 +132,7 @@ func (js *statisticsJournal) prepare() {
 	})
 
 	// Calculate age of money
-	ages := make([]time.Duration, 0)
+	ages := make([]float64, 0)
 
 expenseLoop:
 	for _, ek := range expenseKeys {
@@ -144,8 +144,7 @@ expenseLoop:
 				continue
 			}
 
-			duration := ek.Sub(ik)
-			ages = append(ages, duration)
+			ages = append(ages, daysBetween(ik, ek))
 
 			// Handle not having enough in the income bucket
 			if expense > income {
@@ -161,17 +160,21 @@ expenseLoop:
 	if len(ages) > 10 {
 		ages = ages[len(ages)-10:] // we only care about the final 10
 	}
-	var summedAges time.Duration = 0
+	summedAges := 0.0
 	for _, a := range ages {
 		summedAges += a
 	}
 
 	// filter arguments could mean there were no transactions to process
 	// so we need to guard against dividing by 0 later
-	count := int64(math.Max(1, float64(len(ages))))
-	summedAges = time.Duration(summedAges.Nanoseconds() / count)
+	count := math.Max(1, float64(len(ages)))
 
-	js.ageOfMoney = math.Max(summedAges.Hours()/24, 0)
+	js.ageOfMoney = math.Max(summedAges/count, 0)
+}
+
+// daysBetween returns the number of days from start to end, which may be more than a time.Duration can hold
+func daysBetween(start, end time.Time) float64 {
+	return float64(end.Unix()-start.Unix()) / (24 * 60 * 60)
 }
 
 func (js *statisticsJournal) report() {
@@ -196,8 +199,7 @@ func (js *statisticsJournal) report() {
 	fmt.Printf("Last transaction:\t%s (%s)\n", js.lastTransactionDate.Format(dateLayout), humanize.Time(js.lastTransactionDate))
 
 	// Report duration
-	duration := js.lastTransactionDate.Sub(js.firstTransactionDate)
-	days := math.Round(duration.Hours() / 24)
+	days := math.Round(daysBetween(js.firstTransactionDate, js.lastTransactionDate))
 	fmt.Printf("Time period:\t\t%.f days\n", days)
 
 	// Report transaction count
-- 
2.43.0


From 39fe0c49811807615dbef01eb167ed85b9383599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:19 +0000
Subject: [PATCH 44/44] fix: reject a period that is not a month instead of
 dating its entry to the year 1

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 176361c..365b267 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -237,7 +237,7 @@ func parsePeriod(content []rune) (journal.Period, error) {
 	// Try to cast to a budget date
 	date, err := time.Parse(budgetDateFormat, s)
 	if err != nil {
-		return p, nil
+		return p, fmt.Errorf("could not parse period: %w", err)
 	}
 
 	p.StartDate = date
-- 
2.43.0

