// Code generated by aliasgen. DO NOT EDIT.

package sync

import _ "sync"
