From 2975f7629be39f76f1697c07546055b45f9d1af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 01/28] fix: give an elided posting its amount also when the
 others sum to zero

The posting kept a nil amount, which every report then dereferenced.
---
 journal/transaction.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index 6fd9857..ca3090e 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -108,13 +108,11 @@ func (t *Transaction) Close() error {
 		sum += p.Amount.Quantity
 	}
 
-	if sum != 0 {
-		if t.postingWithElidedAmount == nil {
-			return errors.New("transaction does not balance")
-		}
-
+	if t.postingWithElidedAmount != nil {
 		// NB: setting the commodity like this will not work with multiple currencies
 		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
+	} else if sum != 0 {
+		return errors.New("transaction does not balance")
 	}
 
 	return nil
-- 
2.43.0


From 72a1ab6ff5a83dde744505a515b11e501d9f6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 02/28] fix: report a second elided posting instead of dropping
 it

The error of AddPosting was ignored, so the posting silently vanished.
---
 parser/transactionbuilder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 317b6f3..4d2f827 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -111,7 +111,9 @@ func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, ite
 
 		// Accounts start a posting, so check if we need to start a new one
 		if len(tb.currentPosting.AccountPath) != 0 {
-			t.AddPosting(tb.currentPosting)
+			if err := t.AddPosting(tb.currentPosting); err != nil {
+				return err
+			}
 			tb.currentPosting = journal.NewPosting()
 		}
 
-- 
2.43.0


From 103f76af2db06e90ef7d8729f0230ceb579af8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 03/28] fix: do not add a posting without account to a bare
 header

A transaction without posting lines got a posting with neither account nor
amount, which crashed the reports.
---
 parser/transactionbuilder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 4d2f827..9a3a3ba 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -208,7 +208,8 @@ func (tb *transactionBuilder) endTransaction(p Parser) error {
 
 func (tb *transactionBuilder) endNormalTransaction(t *journal.Transaction, p Parser) error {
 	// Make sure we add the last open posting
-	if tb.currentPosting != nil {
+	// (a transaction without posting lines never gave it an account)
+	if tb.currentPosting != nil && len(tb.currentPosting.AccountPath) != 0 {
 		if err := t.AddPosting(tb.currentPosting); err != nil {
 			return err
 		}
-- 
2.43.0


From 2e43808056173b12b0d317983bcdbb651f7a7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 04/28] fix: attach notes to the transaction being built

In a periodic transaction the notes were added to the (nil) normal one.
---
 parser/transactionbuilder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index 9a3a3ba..e787382 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -66,13 +66,13 @@ func (tb *transactionBuilder) build(t itemType, content []rune) error {
 func (tb *transactionBuilder) buildNormalTransaction(t *journal.Transaction, item itemType, content []rune) error {
 	switch item {
 	case transactionHeaderCommentItem:
-		tb.transaction.HeaderNote = string(content)
+		t.HeaderNote = string(content)
 	case commentItem:
 		// check if we've got a posting to attach the comment to
 		if len(tb.currentPosting.AccountPath) != 0 {
 			tb.currentPosting.AddComment(string(content))
 		} else {
-			tb.transaction.AddNote(string(content))
+			t.AddNote(string(content))
 		}
 	case dateItem:
 		date, err := parseDate(content)
-- 
2.43.0


From 4bb43f36d5b32cee571a3a86103ca091d1cf16e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 05/28] fix: refuse items outside of a transaction

An indented line before the first or after a closed transaction dereferenced
a nil posting. Comments there are ignored, like unindented ones.
---
 parser/transactionbuilder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/transactionbuilder.go b/parser/transactionbuilder.go
index e787382..9f926d8 100644
--- a/parser/transactionbuilder.go
+++ b/parser/transactionbuilder.go
@@ -48,6 +48,14 @@ func (tb *transactionBuilder) beginTransaction(t transactionType) {
 }
 
 func (tb *transactionBuilder) build(t itemType, content []rune) error {
+	// Items can only be added while a transaction is open
+	if tb.currentPosting == nil {
+		if t == commentItem {
+			return nil
+		}
+		return fmt.Errorf("unexpected %s outside of a transaction", t)
+	}
+
 	switch tb.transactionType {
 	case normalTransaction:
 		if err := tb.buildNormalTransaction(tb.transaction, t, content); err != nil {
-- 
2.43.0


From 6ad8c94cca607ccbef4bfe77a7d4a187d6d0ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 06/28] fix: report dates shorter than five characters as
 malformed

The separator was looked up without checking the length.
---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 3e9b6cc..2573992 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -123,6 +123,10 @@ func parseDate(content []rune) (time.Time, error) {
 	var date time.Time
 	var err error
 
+	if len(content) < 5 {
+		return time.Time{}, fmt.Errorf("date is malformed: %s", s)
+	}
+
 	switch content[4] {
 	case '-':
 		date, err = time.Parse(dashDateFormat, s)
-- 
2.43.0


From b8180425698b8f1b97f43d07d9ff3f2adffcba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:36 +0000
Subject: [PATCH 07/28] fix: keep the first character of header comments

With a single space (or none) before the comment mark the mark was already
consumed, and the first character of the text was cut off instead.
---
 parser/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d39606d..0ee1ba3 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -221,7 +221,10 @@ func (l *lexer) lexTransactionHeader() error {
 
 	comment := l.takeToNextLine()
 	if len(comment) > 0 {
-		c := trimSpaceStart(comment[1:])
+		if isCommentIndicator(comment[0]) {
+			comment = comment[1:]
+		}
+		c := trimSpaceStart(comment)
 		if err = l.parser(transactionHeaderCommentItem, c); err != nil {
 			return err
 		}
@@ -381,6 +384,7 @@ func (l *lexer) takeToTabOrNextLineOrComment() []rune {
 		}
 
 		if isCommentIndicator(r) {
+			l.backup()
 			return trimSpace(runes)
 		}
 
-- 
2.43.0


From 782637b82087f0ac2e58db587ef7aacec92878a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 08/28] fix: trim text consisting only of spaces

It was returned unchanged, so trailing spaces became notes and empty
comments grew with every print.
---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 0ee1ba3..0d01435 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -468,7 +468,7 @@ func trimSpaceStart(runes []rune) []rune {
 		return runes
 	}
 
-	index := 0
+	index := len(runes)
 	for i, r := range runes {
 		if r != ' ' {
 			index = i
-- 
2.43.0


From 961d21eafb197dc5b3072cb0f45e9848fbbd0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 09/28] fix: accept trailing spaces and comments after an
 account without amount

Trailing spaces led to parsing an empty amount (a crash), and a comment was
taken for a commodity.
---
 parser/lexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 0d01435..3e95a51 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -252,8 +252,15 @@ func (l *lexer) lexPosting() error {
 			return err
 		}
 
+		spaces := l.consumeSpace()
+
+		// Bail if there is no amount
+		if next := l.peek(); next == eof || isCommentIndicator(next) {
+			return nil
+		}
+
 		// Bail if there are not enough spaces
-		if l.consumeSpace() < 2 {
+		if spaces < 2 {
 			if len(l.input)-l.pos > 1 {
 				return errors.New("not enough spaces following account")
 			}
-- 
2.43.0


From a3ffb4ad11856dd2fd82fa95274a2e053c6ad1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 10/28] fix: refuse posting lines that do not start with a
 letter

They were skipped silently, dropping their amounts from the transaction.
---
 parser/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 3e95a51..abcec6b 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -288,6 +288,10 @@ func (l *lexer) lexPosting() error {
 	// If we didn't lex anything, we should reset the parser
 	l.backup()
 
+	if firstRune != eof {
+		return errors.New("unexpected posting line during lexing")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 82a4ebd7a31b289b15303f60f94eac1b20bbbe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 11/28] fix: read decimals as written and refuse malformed or
 oversized amounts

1.5 was read as 1.05 and 1.234 as 3.34, a second sign was accepted, large
amounts wrapped around and an empty amount crashed.
---
 parser/parser.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2573992..0d8596a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,8 +1,10 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"time"
@@ -146,6 +148,10 @@ func parseDate(content []rune) (time.Time, error) {
 }
 
 func parseAmount(content []rune) (int64, error) {
+	if len(content) == 0 {
+		return 0, errors.New("amount is missing")
+	}
+
 	// Handle signs
 	firstRune := content[0]
 	var multiplier int64
@@ -169,29 +175,41 @@ func parseAmount(content []rune) (int64, error) {
 	}
 
 	// Find whole and decimal
-	var whole int64
-	var decimal int64
+	var whole uint64
+	var decimal uint64
 	var err error
 	if decimalPosition == -1 {
 		// TODO: consider https://stackoverflow.com/a/29255836
-		whole, err = strconv.ParseInt(string(content), 10, 64)
+		whole, err = strconv.ParseUint(string(content), 10, 63)
 		decimal = 0
 
 		if err != nil {
 			return 0, err
 		}
 	} else {
-		whole, err = strconv.ParseInt(string(content[:decimalPosition]), 10, 64)
+		whole, err = strconv.ParseUint(string(content[:decimalPosition]), 10, 63)
 		if err != nil {
 			return 0, err
 		}
-		decimal, err = strconv.ParseInt(string(content[decimalPosition+1:]), 10, 64)
+		decimals := content[decimalPosition+1:]
+		if len(decimals) > 2 {
+			return 0, fmt.Errorf("amount has more than two decimals: %s", string(content))
+		}
+		decimal, err = strconv.ParseUint(string(decimals), 10, 63)
 		if err != nil {
 			return 0, err
 		}
+		// A single decimal digit stands for tenths
+		if len(decimals) == 1 {
+			decimal *= 10
+		}
+	}
+
+	if whole > (math.MaxInt64-decimal)/100 {
+		return 0, fmt.Errorf("amount is out of range: %s", string(content))
 	}
 
-	quantity := multiplier * (whole*100 + decimal)
+	quantity := multiplier * int64(whole*100+decimal)
 
 	return quantity, nil
 }
-- 
2.43.0


From 5f75709c87761d5bae30d9f7e5b51306266217aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 12/28] fix: display large amounts exactly

Going through float64 changed the hundredths of amounts beyond 2^53.
---
 journal/amount.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/journal/amount.go b/journal/amount.go
index c876e15..5ef2dbc 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -24,8 +24,13 @@ func (a Amount) String() string {
 
 // DisplayableQuantity formats the Amount's commodity and quantity
 func (a Amount) DisplayableQuantity(withCommodity bool) string {
-	q := float64(a.Quantity) / 100
-	amount := fmt.Sprintf("%.2f", q)
+	sign := ""
+	units, hundredths := a.Quantity/100, a.Quantity%100
+	if a.Quantity < 0 {
+		sign = "-"
+		units, hundredths = -units, -hundredths
+	}
+	amount := fmt.Sprintf("%s%d.%02d", sign, units, hundredths)
 	if withCommodity {
 		return fmt.Sprintf("%s%s", a.Commodity, amount)
 	}
-- 
2.43.0


From cc6e556574e891b7e13f74416d0119478a5a30db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 13/28] fix: do not share path components between sibling
 accounts

From the fourth level on, creating an account overwrote the last component of
its sibling.
---
 journal/account.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/journal/account.go b/journal/account.go
index 15a2447..9fd8a7f 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -101,7 +101,8 @@ func newAccountWithChildren(parent *Account, components []string) *Account {
 	if parent == nil || parent.Name == RootID || parent.Name == BudgetRootID {
 		child.PathComponents = []string{components[0]}
 	} else {
-		child.PathComponents = append(parent.PathComponents, components[0])
+		// Copy, so that siblings do not share (and overwrite) the same array
+		child.PathComponents = append(append([]string{}, parent.PathComponents...), components[0])
 	}
 
 	child.Path = child.CreatePath()
-- 
2.43.0


From 70dc37a8d918d98a76bb2a04c227a9cc129f0afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 14/28] fix: keep accounts that net to zero but have non-zero
 children

Unlinking them hid their non-zero descendants from the balance report.
---
 journal/account.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/journal/account.go b/journal/account.go
index 9fd8a7f..9d39bfa 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -192,15 +192,9 @@ func (a *Account) findAccounts(matcher func(a Account) bool, found []*Account) [
 
 func (a *Account) RemoveEmptyChildren() {
 	matcher := func(a Account) bool {
-		return a.Amount.Quantity == 0
-	}
-	matching := a.FindAccounts(matcher)
-	for _, m := range matching {
-		if m.Name == RootID {
-			continue
-		}
-		m.Unlink()
+		return a.Amount.Quantity != 0
 	}
+	a.RemoveChildren(matcher)
 }
 
 // Unlink removes this account from it's parents
-- 
2.43.0


From 4db9cefd6a76345056efd42ccfc18aa1e723c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 15/28] fix: compare calendar dates in --begin, --end and
 --current

Transaction dates are in UTC but the bounds were local instants, so the result
depended on the time zone, and --current included tomorrow. Bounds in year 1
were taken for missing ones.
---
 cmd/common.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/common.go b/cmd/common.go
index 94d9ae3..beb1dff 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -120,11 +120,20 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 		end = time.Now().AddDate(0, 0, 1)
 	}
 
-	withinRange := (t.Date.Equal(start) || t.Date.After(start)) && (end.IsZero() || t.Date.Before(end))
+	hasStart := len(beginDate) > 0 && !current
+	hasEnd := len(endDate) > 0 || current
+	start, end = calendarDate(start), calendarDate(end)
+
+	withinRange := (!hasStart || t.Date.Equal(start) || t.Date.After(start)) && (!hasEnd || t.Date.Before(end))
 
 	return withinRange, nil
 }
 
+// calendarDate returns the date of t in the form transactions have theirs (midnight UTC)
+func calendarDate(t time.Time) time.Time {
+	return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+}
+
 // checkAgainstFilters lets you know if the transaction matched the filters or
 // (in the case that transaction wide attributes didn't match)
 // which postings matched the filters
-- 
2.43.0


From 610c9fbf061c312a6dca8d7d5af669971bc09477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 16/28] fix: let an empty list of components name the account
 itself

A budget expense posted directly to 'Expenses' crashed.
---
 journal/account.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/journal/account.go b/journal/account.go
index 9d39bfa..a61ff8a 100644
--- a/journal/account.go
+++ b/journal/account.go
@@ -127,6 +127,9 @@ func (a *Account) FindOrCreateAccount(components []string) *Account {
 
 // Returns the deepest account found and any remaining components
 func (a *Account) findChild(components []string) (*Account, []string) {
+	if len(components) == 0 {
+		return a, nil
+	}
 	if account, didFind := a.Children[components[0]]; didFind {
 		if len(components) > 1 {
 			return account.findChild(components[1:])
-- 
2.43.0


From fb46d7cb22e61d61ece32df33215cf734eb9aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 17/28] fix: print budget columns under their headings

The allocation was shown as activity and the activity as budgeted.
---
 cmd/budget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index a982ea5..e2adaf1 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -152,7 +152,7 @@ func (bp *budgetProcessor) report() {
 				panic(err)
 			}
 
-			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, expenseAccount.Amount, envelopeAccount.Amount, amount.DisplayableQuantity(true))
+			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
 		}
 
 		fmt.Println()
-- 
2.43.0


From 71de8a892b56ee9deb9f0389b9d5f49456360c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 18/28] fix: accept an empty filter argument

Its first character was looked up without checking that there is one.
---
 reporting/filter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reporting/filter.go b/reporting/filter.go
index 236b1da..bb84a89 100644
--- a/reporting/filter.go
+++ b/reporting/filter.go
@@ -2,6 +2,7 @@ package reporting
 
 import (
 	"regexp"
+	"strings"
 	"unicode"
 
 	"github.com/rikchilvers/gledger/journal"
@@ -32,11 +33,11 @@ type Filter struct {
 func NewFilter(arg string) (Filter, error) {
 	filter := Filter{}
 
-	switch []rune(arg)[0] {
-	case '@':
+	switch {
+	case strings.HasPrefix(arg, "@"):
 		filter.FilterType = PayeeFilter
 		arg = arg[1:]
-	case '=':
+	case strings.HasPrefix(arg, "="):
 		filter.FilterType = NoteFilter
 		arg = arg[1:]
 	default:
-- 
2.43.0


From b41404157e6a636a486463fa6fd4090c5da6bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 19/28] fix: keep journal order among printed transactions of
 the same date

---
 cmd/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/print.go b/cmd/print.go
index 19e4f94..fef79a0 100644
--- a/cmd/print.go
+++ b/cmd/print.go
@@ -52,7 +52,7 @@ func (pj *printJournal) transactionHandler(t *journal.Transaction, _ string) err
 }
 
 func (pj *printJournal) prepare() {
-	sort.Slice(pj.transactions, func(i, j int) bool {
+	sort.SliceStable(pj.transactions, func(i, j int) bool {
 		return pj.transactions[i].Date.Before(pj.transactions[j].Date)
 	})
 }
-- 
2.43.0


From bdb77405c42d17dbf3c55e9634a3a68892c4110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 20/28] fix: refuse signed years in date options

---
 parser/dates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/dates.go b/parser/dates.go
index ce7fb68..e281678 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -52,12 +52,12 @@ func parseYear(date string) (time.Time, error) {
 		return time.Time{}, fmt.Errorf("could not parse year: '%s'", date)
 	}
 
-	year, err := strconv.Atoi(date)
+	year, err := strconv.ParseUint(date, 10, 16)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	return time.Date(year, time.January, 1, 0, 0, 0, 0, time.Local), nil
+	return time.Date(int(year), time.January, 1, 0, 0, 0, 0, time.Local), nil
 }
 
 // parseYearMonth expects dates in the format 2020/06
-- 
2.43.0


From a94d1f00c3ad7d92a1603654d4e0a9d7130a66e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 21/28] fix: close the open transaction before reading an
 included file

The transaction above an include line without an empty line in between
was attributed to the included file, and posting lines at the top of the
included file were added to it.
---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 0d8596a..f2cdfee 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -64,6 +64,12 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 			return err
 		}
 	case includeItem:
+		// An include directive is not part of a transaction
+		// so check if we need to close a previous one
+		if err := p.transactionBuilder.endTransaction(*p); err != nil {
+			return err
+		}
+
 		path := string(content)
 
 		// Add the file to the slice
-- 
2.43.0


From a33a162ecf31ff5f44acff1808dacabf3cf48c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 22/28] fix: return to the including file after a nested
 include

All but the root file were dropped, so transactions following a nested
include were attributed to the root journal.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f2cdfee..26972cf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -90,7 +90,7 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 		}
 
 		// Drop the file from the slice
-		p.journalFiles = p.journalFiles[:1]
+		p.journalFiles = p.journalFiles[:len(p.journalFiles)-1]
 	case dateItem:
 		// This will start a transaction so check if we need to close a previous one
 		// in case there is no empty line between transactions
-- 
2.43.0


From 96f110173b3357df7f1f64bd361ab39367646177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 23/28] fix: refuse a file that includes itself

Such a journal exhausted the stack.
---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 26972cf..5d0bafa 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 	"strconv"
 	"time"
 
@@ -72,6 +73,13 @@ func (p *Parser) parseItem(t itemType, content []rune) error {
 
 		path := string(content)
 
+		// A file cannot be included from within itself
+		for _, open := range p.journalFiles {
+			if filepath.Clean(open) == filepath.Clean(path) {
+				return fmt.Errorf("file includes itself: %s", path)
+			}
+		}
+
 		// Add the file to the slice
 		p.journalFiles = append(p.journalFiles, path)
 
-- 
2.43.0


From 64834f603028e32488579a2560b2d894316f7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 24/28] fix: refuse sums of amounts which cannot be represented

---
 cmd/budget.go          |  3 ++-
 journal/amount.go      | 30 ++++++++++++++++++++++++++++--
 journal/budget.go      |  3 +--
 journal/transaction.go | 11 +++++++++--
 4 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/cmd/budget.go b/cmd/budget.go
index e2adaf1..057084b 100644
--- a/cmd/budget.go
+++ b/cmd/budget.go
@@ -149,7 +149,8 @@ func (bp *budgetProcessor) report() {
 
 			amount := envelopeAccount.Amount
 			if err := amount.Add(expenseAccount.Amount); err != nil {
-				panic(err)
+				fmt.Println(err)
+				return
 			}
 
 			fmt.Printf("%-30s | %20s | %20s | %20s |\n", cn, envelopeAccount.Amount, expenseAccount.Amount, amount.DisplayableQuantity(true))
diff --git a/journal/amount.go b/journal/amount.go
index 5ef2dbc..b35db43 100644
--- a/journal/amount.go
+++ b/journal/amount.go
@@ -1,9 +1,27 @@
 package journal
 
 import (
+	"errors"
 	"fmt"
+	"math"
 )
 
+// addQuantities adds two quantities, refusing sums which cannot be represented
+func addQuantities(a, b int64) (int64, error) {
+	if (b > 0 && a > math.MaxInt64-b) || (b < 0 && a < math.MinInt64-b) {
+		return 0, errors.New("sum of amounts is out of range")
+	}
+	return a + b, nil
+}
+
+// subtractQuantities subtracts b from a, refusing differences which cannot be represented
+func subtractQuantities(a, b int64) (int64, error) {
+	if (b < 0 && a > math.MaxInt64+b) || (b > 0 && a < math.MinInt64+b) {
+		return 0, errors.New("difference of amounts is out of range")
+	}
+	return a - b, nil
+}
+
 // Amount encapsulates the quantity of a specific commodity (e.g. GBP)
 type Amount struct {
 	Commodity string
@@ -43,7 +61,11 @@ func (a *Amount) Add(other Amount) error {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled addition of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
-	a.Quantity += other.Quantity
+	quantity, err := addQuantities(a.Quantity, other.Quantity)
+	if err != nil {
+		return err
+	}
+	a.Quantity = quantity
 	return nil
 }
 
@@ -53,6 +75,10 @@ func (a *Amount) Subtract(other Amount) error {
 		// return errors.New("unhandled addition of unmatched commodities")
 		fmt.Printf("unhandled subtraction of unmatched commodities: '%s' and '%s'\n", a.Commodity, other.Commodity)
 	}
-	a.Quantity -= other.Quantity
+	quantity, err := subtractQuantities(a.Quantity, other.Quantity)
+	if err != nil {
+		return err
+	}
+	a.Quantity = quantity
 	return nil
 }
diff --git a/journal/budget.go b/journal/budget.go
index da2cb3c..8fdf58e 100644
--- a/journal/budget.go
+++ b/journal/budget.go
@@ -67,8 +67,7 @@ func (b *Budget) AddPosting(p *Posting, pt PostingType) error {
 	// Don't add the BudgetRoot to the budget
 	// Instead, roll it in to the EnvelopeRoot
 	if pt == EnvelopePosting && p.AccountPath == BudgetRootID {
-		bm.EnvelopeRoot.Amount.Add(*p.Amount)
-		return nil
+		return bm.EnvelopeRoot.Amount.Add(*p.Amount)
 	}
 
 	// Choose root
diff --git a/journal/transaction.go b/journal/transaction.go
index ca3090e..ae036a8 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -97,6 +97,7 @@ func (t *Transaction) Close() error {
 	// Check the transaction balances
 	sum := int64(0)
 	c := ""
+	var err error
 	for _, p := range t.Postings {
 		if p.Amount == nil {
 			continue
@@ -105,12 +106,18 @@ func (t *Transaction) Close() error {
 		if len(p.Amount.Commodity) > 0 {
 			c = p.Amount.Commodity
 		}
-		sum += p.Amount.Quantity
+		if sum, err = addQuantities(sum, p.Amount.Quantity); err != nil {
+			return err
+		}
 	}
 
 	if t.postingWithElidedAmount != nil {
+		elided, err := subtractQuantities(0, sum)
+		if err != nil {
+			return err
+		}
 		// NB: setting the commodity like this will not work with multiple currencies
-		t.postingWithElidedAmount.Amount = NewAmount(c, -sum)
+		t.postingWithElidedAmount.Amount = NewAmount(c, elided)
 	} else if sum != 0 {
 		return errors.New("transaction does not balance")
 	}
-- 
2.43.0


From bfbdc15b25c0672dadf65cb161ec3bb4dc5ff53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 25/28] fix: keep the calendar date where local midnight does
 not exist

---
 parser/dates.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/parser/dates.go b/parser/dates.go
index e281678..069f20e 100644
--- a/parser/dates.go
+++ b/parser/dates.go
@@ -57,7 +57,17 @@ func parseYear(date string) (time.Time, error) {
 		return time.Time{}, err
 	}
 
-	return time.Date(int(year), time.January, 1, 0, 0, 0, 0, time.Local), nil
+	return localMidnight(time.Date(int(year), time.January, 1, 0, 0, 0, 0, time.UTC)), nil
+}
+
+// localMidnight returns local midnight of the calendar date of t.
+// Where the local clock skips that midnight, it stays in UTC so that the date is kept.
+func localMidnight(t time.Time) time.Time {
+	local := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.Local)
+	if local.Day() != t.Day() {
+		return t
+	}
+	return local
 }
 
 // parseYearMonth expects dates in the format 2020/06
@@ -74,12 +84,12 @@ func parseYearMonth(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, date, time.Local)
+	parsed, err := time.Parse(format, date)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	return parsed, nil
+	return localMidnight(parsed), nil
 }
 
 // parseMonthDaty expected dates in the format 06/22
@@ -100,12 +110,12 @@ func parseMonthDay(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, dateWithYear, time.Local)
+	parsed, err := time.Parse(format, dateWithYear)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	return parsed, nil
+	return localMidnight(parsed), nil
 }
 
 // parseYearMonthDay expects dates in the format 2020/06/22
@@ -122,10 +132,10 @@ func parseYearMonthDay(date string, separator rune) (time.Time, error) {
 		return time.Time{}, errors.New("unhandled date format")
 	}
 
-	parsed, err := time.ParseInLocation(format, date, time.Local)
+	parsed, err := time.Parse(format, date)
 	if err != nil {
 		return time.Time{}, err
 	}
 
-	return parsed, nil
+	return localMidnight(parsed), nil
 }
-- 
2.43.0


From 50095caaa8fa2ca6c032df96da531fd12e197a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 26/28] fix: balance transactions by their exact sum, whatever
 the order of postings

---
 journal/transaction.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/journal/transaction.go b/journal/transaction.go
index ae036a8..61df1fd 100644
--- a/journal/transaction.go
+++ b/journal/transaction.go
@@ -3,6 +3,8 @@ package journal
 import (
 	"errors"
 	"fmt"
+	"math"
+	"math/big"
 	"time"
 )
 
@@ -95,9 +97,9 @@ func (t *Transaction) AddPosting(p *Posting) error {
 // Close ensures the transaction balances (assigning an amount to an elided posting as necessary)
 func (t *Transaction) Close() error {
 	// Check the transaction balances
-	sum := int64(0)
+	// (the sum of representable amounts need not be representable itself)
+	sum := new(big.Int)
 	c := ""
-	var err error
 	for _, p := range t.Postings {
 		if p.Amount == nil {
 			continue
@@ -106,19 +108,18 @@ func (t *Transaction) Close() error {
 		if len(p.Amount.Commodity) > 0 {
 			c = p.Amount.Commodity
 		}
-		if sum, err = addQuantities(sum, p.Amount.Quantity); err != nil {
-			return err
-		}
+		sum.Add(sum, big.NewInt(p.Amount.Quantity))
 	}
 
 	if t.postingWithElidedAmount != nil {
-		elided, err := subtractQuantities(0, sum)
-		if err != nil {
-			return err
+		sum.Neg(sum)
+		// (the most negative quantity could be displayed but not read back)
+		if !sum.IsInt64() || sum.Int64() == math.MinInt64 {
+			return errors.New("sum of amounts is out of range")
 		}
 		// NB: setting the commodity like this will not work with multiple currencies
-		t.postingWithElidedAmount.Amount = NewAmount(c, elided)
-	} else if sum != 0 {
+		t.postingWithElidedAmount.Amount = NewAmount(c, sum.Int64())
+	} else if sum.Sign() != 0 {
 		return errors.New("transaction does not balance")
 	}
 
-- 
2.43.0


From 33bef7b5587e1669d40157bee07a03b8ef1e3152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 27/28] fix: --current on the day before a skipped midnight

Adding a day to the local time lands on the same day when the resulting
wall clock time does not exist; add it to the calendar date instead.
---
 cmd/common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/common.go b/cmd/common.go
index beb1dff..cb413f5 100644
--- a/cmd/common.go
+++ b/cmd/common.go
@@ -117,7 +117,7 @@ func withinDateRange(t *journal.Transaction) (bool, error) {
 
 	if current {
 		start = time.Time{}
-		end = time.Now().AddDate(0, 0, 1)
+		end = calendarDate(time.Now()).AddDate(0, 0, 1)
 	}
 
 	hasStart := len(beginDate) > 0 && !current
-- 
2.43.0


From 8b76f5145f61cd1e699cc63040ebcec5e2afcfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 28/28] fix: statistics count a first transaction dated
 0001-01-01

---
 cmd/stats.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/stats.go b/cmd/stats.go
index 98c7926..b58c938 100644
--- a/cmd/stats.go
+++ b/cmd/stats.go
@@ -78,12 +78,12 @@ func (js *statisticsJournal) transactionHandler(t *journal.Transaction, path str
 	js.transactionCount++
 
 	// Check start date
-	if js.firstTransactionDate.IsZero() || t.Date.Before(js.firstTransactionDate) {
+	if js.transactionCount == 1 || t.Date.Before(js.firstTransactionDate) {
 		js.firstTransactionDate = t.Date
 	}
 
 	// Check end date
-	if js.lastTransactionDate.IsZero() || t.Date.After(js.lastTransactionDate) {
+	if js.transactionCount == 1 || t.Date.After(js.lastTransactionDate) {
 		js.lastTransactionDate = t.Date
 	}
 
-- 
2.43.0

