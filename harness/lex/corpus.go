// Statements of the test suite, chosen so that every pair of adjacent token types
// they contain occurs; the first ones contribute most.
package lex

var corpus = []struct {
	mode int
	sql  string
}{
	{3, "CREATE TRIGGER [insert_log] ON [dbo].[users] after insert AS delete from logs insert into logs(log, dt) values ('insert', getdate())"},
	{0, "CREATE TRIGGER `insert_log` after insert ON `users` FOR EACH ROW insert into log(log, dt) values ('insert', now())"},
	{0, "ALTER TABLE `users` ADD COLUMN `name` varchar(20) CHARACTER SET ascii COLLATE ascii_bin NOT NULL AFTER `id`"},
	{1, "ALTER TABLE \"public\".\"voltages\" ALTER COLUMN \"volt\" ADD GENERATED BY DEFAULT AS IDENTITY (START WITH -100 INCREMENT BY 5 MINVALUE -100 MAXVALUE 100)"},
	{0, "select /* bool in order by */ * from t order by a is null or b asc"},
	{3, "CREATE TABLE users ( id bigint NOT NULL, name varchar(20), INDEX [ix_users_id] UNIQUE CLUSTERED ([id] desc) WITH ( PAD_INDEX = ON, FILLFACTOR = 10, STATISTICS_NORECOMPUTE = ON ) ON [PRIMARY] )"},
	{0, "update /* table alias */ tt as aa set aa.cc = 3"},
	{1, "CREATE POLICY p_users ON users AS RESTRICTIVE FOR ALL TO postgres USING (id = (current_user)::integer)"},
	{0, "set session transaction isolation level repeatable read"},
	{0, "select * from t where case a when (select a from b) then b when b then c else d end"},
	{1, "CREATE TABLE users ( profile character varying(50) NOT NULL DEFAULT ''::character varying, default_int int default 20, default_bool bool default true, default_numeric numeric(5) default 42.195, default_fixed_char character(3) default 'JPN'::bpchar, default_text text default ''::text, default_current_timestamp timestamp default CURRENT_TIMESTAMP, default_current_date date default CURRENT_DATE, default_current_time time default CURRENT_TIME, joined_at timestamp with time zone NOT NULL DEFAULT '0001-01-01 00:00:00'::timestamp without time zone, created_at timestamp with time zone DEFAULT now() )"},
	{0, "CREATE TABLE t (UpdateDatetime TIMESTAMP NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP COMMENT '更新时间')"},
	{0, "insert /* bool in on duplicate */ into a values (1, 2) on duplicate key update b = false, c = d"},
	{0, "show full tables from a like '%keyspace%'"},
	{1, "ALTER TABLE ONLY public.posts ADD CONSTRAINT posts_ibfk_1 FOREIGN KEY (user_id) REFERENCES users (id) ON DELETE SET NULL ON UPDATE CASCADE"},
	{0, "select match(a1, a2) against ('foo' in natural language mode with query expansion) from t"},
	{0, "alter table a reorganize partition b into (partition c values less than (?), partition d values less than (maxvalue))"},
	{0, "select /* lock in share mode */ 1 from t lock in share mode"},
	{1, "CREATE TABLE a ( a_id INTEGER PRIMARY KEY CHECK (a_id > 2) NO INHERIT, my_text TEXT UNIQUE NOT NULL )"},
	{0, "create vindex lookup_vdx using lookup with owner=user, table=name_user_idx, from=name, to=user_id"},
	{0, "CREATE TABLE posts (\n\t\t  content text,\n\t\t  user_id bigint,\n\t\t  CONSTRAINT posts_ibfk_1 FOREIGN KEY (user_id) REFERENCES users (id) ON DELETE CASCADE\n\t\t)"},
	{2, "CREATE VIEW `view_users` AS select id from users where age = 1"},
	{0, "drop table if exists a"},
	{0, "begin /* ... *//*test*/"},
	{0, "CREATE TABLE posts (\n\t\t  id BIGINT UNSIGNED NOT NULL AUTO_INCREMENT PRIMARY KEY,\n\t\t  title varchar(40) DEFAULT NULL,\n\t\t  FULLTEXT KEY title_fulltext_index (title) /*!50100 WITH PARSER ngram */\n\t\t)"},
	{0, "select /* share and mode as cols */ share, mode from t where share = 'foo'"},
	{0, "delete /* limit */ from a limit b"},
	{0, "select /* string in case statement */ if(max(case a when 'foo' then 1 else 0 end) = 1, 'foo', 'bar') as foobar from t"},
	{0, "select /* non-reserved keywords as unqualified cols */ date, view, offset from t"},
	{0, "set transaction read write"},
	{0, "show index from table"},
	{0, "select utc_time, utc_date"},
	{0, "update a set v1 = :bv1 where v2 in ::bv2"},
	{0, "ALTER TABLE `users` CHANGE COLUMN `updated_at` `updated_at` datetime DEFAULT current_timestamp"},
	{0, "rename table a to b"},
	{0, "use duplicate"},
	{0, "select 1 from dual where localtime > utc_time"},
	{0, "select /* unused keywords as cols */ write, varying from t where trailing = 'foo'"},
	{3, "CREATE TABLE v ( v_integer integer NOT NULL, v_text text, v_smallmoney smallmoney, v_money money, v_datetimeoffset datetimeoffset(1), v_datetime2 datetime2, v_smalldatetime smalldatetime, v_nchar nchar(30), v_nvarchar nvarchar(30), v_ntext ntext )"},
	{0, "select name, group_concat(distinct id, score order by id desc separator ':') from t group by name"},
	{0, "select convert('abc', char character set binary) from t"},
	{0, "select cast('abc' as date) from t"},
	{3, "ALTER TABLE [dbo].[a] DROP CONSTRAINT %s"},
	{0, "select next 1 values from t"},
	{0, "show tables where 1 = 0"},
	{0, "create database if not exists test_db"},
	{0, "SET charset default"},
	{0, "show create procedure"},
	{0, "show function status"},
	{0, "show global variables"},
	{0, "select /* multiple positional arguments */ ?, ? from t"},
	{0, "alter table a drop column id int"},
	{0, "select binary 'a' = 'A' from t"},
	{1, "CREATE OR REPLACE VIEW \"public\".\"view_user_posts\" AS select p.id from (posts as p join users as u on ((p.user_id = u.id))) where (p.is_deleted = false)"},
	{0, "select /* union order by limit lock */ 1 from t union select 1 from t order by a asc limit 1 for update"},
	{0, "select /* keyword in qualified id */ * from t join z on t.key = z.key"},
	{3, "ALTER TABLE [dbo].[users] ADD [membership_id] int CHECK NOT FOR REPLICATION (membership_id > (0))"},
	{0, "select 1+2*3 from a"},
	{0, "select * from a where (a=1 and b=2) is true"},
	{0, "create table t (\n\ti1 int default 1,\n\ti2 int default null,\n\tf1 float default 1.23,\n\ts1 varchar default 'c',\n\ts2 varchar default 'this is a string',\n\ts3 varchar default null,\n\ts4 timestamp default current_timestamp,\n\ts5 bit(1) default B'0'\n)"},
	{0, "CREATE TABLE users (\n\t\t  word varchar(64) BINARY NOT NULL\n\t\t) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4"},
	{0, "explain"},
	{0, "create table t (\n\tid int auto_increment,\n\tusername varchar,\n\temail varchar,\n\tprimary key (id) comment 'hi',\n\tunique key by_username (username) key_block_size 8,\n\tunique index by_username4 (username) comment 'hi' using BTREE,\n\tunique index by_username4 (username) using BTREE key_block_size 4 comment 'hi'\n)"},
	{0, "CREATE TABLE users (\n\t\t  bool_flag BOOL,\n\t\t  boolean_flag BOOLEAN\n\t\t)"},
	{0, "set transaction isolation level read committed"},
	{0, "alter ignore table a add foo"},
	{0, "set /* mixed list */ a = 3, names 'utf8', charset 'ascii', b = 4"},
	{0, "SELECT DATE_SUB(NOW(), INTERVAL 1 MONTH)"},
	{0, "show databases"},
	{0, "show keys"},
	{0, "show processlist"},
	{0, "show vindexes"},
	{0, "show vitess_keyspaces"},
	{0, "show vitess_shards"},
	{0, "show vitess_tablets"},
	{0, "show vschema_tables"},
	{0, "truncate foo"},
	{0, "delete from t partition (p0) where a = 1"},
	{0, "select substr(a from 1 for 6) from t"},
	{3, "CREATE TABLE messages ( id BIGINT NOT NULL PRIMARY KEY, content TEXT NOT NULL CONSTRAINT [df_messages_content] DEFAULT '' )"},
	{0, "CREATE TABLE users (\n\t\t  charv character(40),\n\t\t  varcharv character varying(40),\n\t\t  intv integer\n\t\t)"},
	{1, "ALTER TABLE \"public\".\"users\" ADD COLUMN \"name\" integer[]"},
	{1, "ALTER TABLE \"public\".\"color\" ALTER COLUMN \"color_id\" SET GENERATED ALWAYS"},
	{0, "select * from t where :v1 = :v2 and :v2 = :v3 and :v4 in ::v5"},
	{0, "select /* - - */ - -b from t"},
	{0, "select /* binary binary */ binary  binary b from t"},
	{0, "select /* not like escape */ 1 from t where a not like b escape '$'"},
	{0, "insert /* bool in insert value */ into a values (1, true, false)"},
	{0, "update t set a = localtimestamp(), b = utc_timestamp"},
	{1, "ALTER TABLE \"public\".\"color\" ALTER COLUMN \"color_id\" DROP IDENTITY IF EXISTS"},
	{3, "CREATE TABLE users ( id bigint NOT NULL, name varchar(20), CONSTRAINT [pk_users] PRIMARY KEY CLUSTERED ([id]) WITH ( PAD_INDEX = OFF, STATISTICS_NORECOMPUTE = OFF, IGNORE_DUP_KEY = OFF, ALLOW_ROW_LOCKS = ON, ALLOW_PAGE_LOCKS = ON ) )"},
	{0, "SET names utf8"},
	{0, "select /* left outer join */ 1 from t1 left outer join t2 using (a)"},
	{0, "alter view a"},
	{0, "show character set"},
	{0, "show create view"},
	{0, "show open tables"},
	{0, "show procedure status"},
	{0, "show session status"},
	{0, "show table status"},
	{0, "create schema test_db"},
	{0, "drop database test_db"},
	{0, "CREATE TABLE users2 (\n\t\t  id BIGINT UNSIGNED AUTO_INCREMENT NOT NULL PRIMARY KEY\n\t\t)"},
	{1, "CREATE INDEX \"index_name\" on users (key)"},
	{2, "DROP VIEW `view_users`"},
	{0, "select * from t use index (i)"},
	{0, "select /* natural left join */ 1 from t1 natural left join t2"},
	{0, "select /* NE false */ 1 from t where a != false"},
	{0, "select truncate(120.3333, 2) from dual"},
	{0, "set autocommit=on"},
	{0, "set autocommit=off"},
	{0, "SET character_set_results = NULL"},
	{0, "SET foo = 0x1234"},
	{0, "select * from t where a between b and (select a from b)"},
	{0, "select .1 from t"},
	{0, "set character set 'utf8'"},
	{0, "set transaction read only"},
	{0, "stream * from t"},
	{0, "alter table A convert"},
	{0, "select status from t"},
	{0, "select variables from t"},
	{0, "CREATE TABLE users(\n\t\t  id bigint NOT NULL /* comment */\n\t\t)"},
	{0, "select * from t where convert((select a from b), json)"},
	{0, "insert into t(a, b) values (current_date, current_date())"},
	{1, "CREATE TABLE color ( color_id INT GENERATED ALWAYS AS IDENTITY, color_name VARCHAR NOT NULL )"},
	{0, "SET GLOBAL wait_timeout = 3600"},
	{0, "select - -1 from t"},
	{0, "select next value for t"},
	{0, "select /* null */ null from t"},
	{0, "select /* hex */ x'f0A1' from t"},
	{0, "select /* bit literal */ b'0101' from t"},
	{0, "select /* 0x */ 0xf0 from t"},
	{0, "set transaction isolation level serializable"},
	{0, "alter table a alter foo"},
	{0, "alter table a rename b"},
	{0, "alter table a drop constraint"},
	{0, "drop view if exists a"},
	{0, "show full tables in a"},
	{0, "show foobar like select * from table where syntax is 'ignored'"},
	{3, "CREATE TABLE users ( id BIGINT NOT NULL IDENTITY(1,1) PRIMARY KEY, name varchar(40) DEFAULT NULL, created_at datetime NOT NULL )"},
	{0, "select STRAIGHT_JOIN t1.* FROM t1 INNER JOIN  t2 ON t1.CommonID = t2.CommonID WHERE t1.FilterID = 1"},
	{0, "ALTER TABLE `users` ADD COLUMN `authorities` enum('normal', 'admin') NOT NULL DEFAULT 'normal' AFTER `id`"},
	{0, "select /* case_when */ case when a = b then c end from t"},
	{0, "select 1 from dual where localtime() > utc_time()"},
	{0, "select /* distinct */ distinct 1 from t"},
	{0, "select /* straight_join */ straight_join 1 from t"},
	{0, "select next :a values from t"},
	{0, "set transaction isolation level read uncommitted"},
	{0, "alter table e auto_increment = 20"},
	{0, "alter table e comment = 'hello'"},
	{0, "show profile cpu for query 1"},
	{0, "select /* cache directive */ sql_no_cache 'foo' from t"},
	{0, "select current_timestamp() from dual"},
	{0, "select k from t1 group by k having k = 'Müller' collate latin1_german2_ci"},
	{2, "CREATE TABLE users ( c_timestamp timestamp, c_integer integer, c_text text )"},
	{3, "CREATE NONCLUSTERED INDEX [index_name] ON [users] ([name] DESC) INCLUDE([created_at]) WITH (PAD_INDEX = ON)"},
	{0, "select /* database as func no param */ database() from t"},
	{0, "select /* binary ~ */ binary  ~b from t"},
	{0, "select /* ~ binary */ ~ binary b from t"},
	{0, "create table `by` (\n\t`by` char\n)"},
	{0, "CREATE TABLE some_table (\n\t\t  some_value decimal(5, 2) DEFAULT 0.0\n\t\t)"},
	{1, "CREATE TABLE users ( name citext )"},
	{1, "CREATE TABLE posts (id BIGINT PRIMARY KEY, name character varying(100), user_id BIGINT, is_deleted boolean)"},
	{0, "SELECT * FROM AccessToken LIMIT 10 OFFSET 13"},
	{0, "select * from t where v1 = 1.2"},
	{0, "select /* cross join */ 1 from t1 cross join t2"},
	{0, "alter table e default character set = 'ascii'"},
	{0, "(select /* union parenthesized select */ 1 from t order by a asc) union select 1 from t"},
	{0, "CREATE TABLE users (\n\t\t  id BIGINT PRIMARY KEY,\n\t\t  name varchar(40) UNIQUE\n\t\t)"},
	{0, "select title from video as v where match(v.title, v.tag) against ('DEMO' in boolean mode)"},
	{0, "begin"},
	{0, "use"},
	{0, "select * from t force index (i)"},
	{0, "select /* natural right join */ 1 from t1 natural right join t2"},
	{0, "select /* false on left */ 1 from t where false = 0"},
	{0, "select /* regexp */ 1 from t where a regexp b"},
	{0, "select /* < */ 1 from t where a < b"},
	{0, "select /* <= */ 1 from t where a <= b"},
	{0, "select /* >= */ 1 from t where a >= b"},
	{0, "select /* > */ 1 from t where a > b"},
	{0, "select /* <=> */ 1 from t where a <=> b"},
	{0, "select /* -> */ a.b -> 'ab' from t"},
	{0, "select /* -> */ a.b ->> 'ab' from t"},
	{0, "update /* bool expr in update */ a set b = 5 > 2"},
	{0, "select 1 from t where foo = _binary 'bar'"},
	{0, "select left(a, 5) from t"},
	{0, "select convert('abc', nchar) from t"},
	{0, "select convert('abc', signed) from t"},
	{0, "select convert('abc', unsigned) from t"},
	{0, "select convert('abc', decimal) from t"},
	{0, "select convert('abc', time) from t"},
	{0, "select convert('abc', datetime) from t"},
	{0, "select substring(a, 1) from t"},
	{1, "CREATE UNIQUE INDEX \"index_age\" on users (age)"},
	{0, "select /* not */ 1 from t where not a = b"},
	{0, "select /* ! */ 1 from t where a = !1"},
	{0, "select /* is not true */ 1 from t where a is not true"},
	{0, "select /* u+ */ 1 from t where a = +b"},
	{0, "alter table a add spatial key foo (column1)"},
	{0, "alter table a add fulltext index idx (id)"},
	{0, "alter table a drop spatial index idx (id)"},
	{0, "update t set b = utc_timestamp() + 5"},
	{1, "ALTER TABLE \"public\".\"timestamps\" ALTER COLUMN \"created_at\" DROP DEFAULT"},
	{0, "select * from t where group_concat(1 order by (select a from b), a)"},
	{0, "CREATE OR REPLACE VIEW `foo` AS select u.id as id, p.id as post_id from (mysqldef_test.users as u join mysqldef_test.posts as p on (((u.id = p.user_id) and (p.is_deleted = 0))))"},
	{0, "alter table a partition by range (id) (partition p0 values less than (10), partition p1 values less than (maxvalue))"},
	{0, "create table t (\n\tid int auto_increment primary key,\n\tusername varchar unique key,\n\temail varchar unique,\n\tfull_name varchar key,\n\ttime1 timestamp on update current_timestamp,\n\ttime2 timestamp default current_timestamp on update current_timestamp\n)"},
	{0, "select /* union all */ 1 from t union all select 1 from t"},
	{0, "select /* union distinct */ 1 from t union distinct select 1 from t"},
	{0, "select /* & */ 1 from t where a = b & c"},
	{0, "select /* | */ 1 from t where a = b | c"},
	{0, "select /* ^ */ 1 from t where a = b ^ c"},
	{0, "select /* * */ 1 from t where a = b * c"},
	{0, "select /* / */ 1 from t where a = b / c"},
	{0, "select /* % */ 1 from t where a = b % c"},
	{0, "select /* div */ 1 from t where a = b div c"},
	{0, "select /* MOD */ 1 from t where a = b MOD c"},
	{0, "select /* << */ 1 from t where a = b << c"},
	{0, "select /* >> */ 1 from t where a = b >> c"},
	{0, "show index"},
	{0, "show status"},
	{0, "show variables"},
	{0, "use db"},
	{0, "explain foobar"},
	{0, "select replace(a, 'foo', 'bar') from t"},
	{1, "ALTER TABLE \"public\".\"timestamps\" ALTER COLUMN \"created_at\" SET DEFAULT current_timestamp"},
	{1, "ALTER TABLE \"public\".\"users\" ALTER COLUMN \"name\" SET NOT NULL"},
	{0, "select * from t where exists (select a from b)"},
	{0, "select * from t where -(select a from b)"},
	{0, "select /* interval keyword */ adddate('2008-01-02', interval 1 year) from t"},
	{0, "insert /* set default */ into a set a = default, b = 2"},
	{0, "select convert('abc', binary(4)) from t"},
	{0, "insert into a(a, b) values (1, ifnull(null, default(b)))"},
	{1, "CREATE POLICY p_users ON users AS PERMISSIVE FOR ALL TO PUBLIC USING (id = (current_user)::integer) WITH CHECK ((current_user)::integer = 1)"},
	{0, "select * from t where a or (select a from b)"},
	{0, "select * from t where interval (select a from b) aa"},
	{0, "select * from t where v1 not in (1, '2')"},
	{0, "select /* right outer join */ 1 from t1 right outer join t2 on a = b"},
	{0, "show binary logs"},
	{0, "show create database"},
	{0, "show create event"},
	{0, "show create trigger"},
	{0, "show full processlist"},
	{0, "show global status"},
	{0, "show session variables"},
	{0, "truncate table foo"},
	{0, "replace into t partition (p0) values (1, 'asdf')"},
	{0, "drop schema test_db"},
	{2, "DROP TABLE `users`"},
	{0, "CREATE TABLE users (\n\t\t  id bigint(20) UNSIGNED NOT NULL AUTO_INCREMENT,\n\t\t  name TEXT NOT NULL,\n\t\t  PRIMARY KEY (id),\n\t\t  INDEX index_name(name(255))\n\t\t)"},
	{0, "select /* mod as func */ a from tab where mod(b, 2) = 0"},
	{3, "CREATE TABLE dbo.users ( id int NOT NULL, age int )"},
	{0, "set autocommit=true"},
	{0, "show create procedure p"},
	{0, "show grants for 'root@localhost'"},
	{0, "show keys from table"},
	{0, "show tables like '%keyspace%'"},
	{0, "show vindexes on t"},
	{1, "CREATE POLICY p_users ON users AS RESTRICTIVE FOR ALL TO postgres USING (true)"},
	{3, "CREATE TABLE users ( profile varchar(50) NOT NULL DEFAULT (''), default_int int default ((20)), default_bool bit default ((1)), default_numeric numeric(5) default ((42.195)), default_fixed_char varchar(3) default ('JPN'), default_text text default (''), default_date datetimeoffset default (getdate()) )"},
	{0, "update t set d = adddate(date('2003-12-31 01:02:03'), interval 5 days)"},
	{2, "CREATE TABLE users ( id integer PRIMARY KEY AUTOINCREMENT, name text, age integer )"},
	{0, "update a set v1 = (select :bv1 from t), v2 = :bv2, v3 = (select :bv1 from t), v4 = :bv3"},
	{0, "SET SESSION wait_timeout = 3600"},
	{0, "select 1 from t // aa"},
	{0, "select 1 --aa\nfrom t"},
	{0, "select /* \\0 */ '\\0' from a"},
	{0, "select /* float */ 0.1 from t"},
	{0, "alter table a change foo"},
	{0, "alter table a drop foo"},
	{0, "alter table a order foo"},
	{0, "alter table a default foo"},
	{0, "drop index b on a"},
	{0, "show character set like '%foo'"},
	{0, "stream /* comment */ * from t"},
	{3, "ALTER TABLE [dbo].[users] ADD [membership_id] int IDENTITY(1,1) NOT FOR REPLICATION"},
	{0, "CREATE TABLE users (\n\t\t  id int(11) NOT NULL AUTO_INCREMENT,\n\t\t  password char(128) COLLATE utf8mb4_bin DEFAULT NULL,\n\t\t  PRIMARY KEY (id)\n\t\t)"},
	{3, "CREATE TABLE posts ( post_id BIGINT IDENTITY(1,1) NOT FOR REPLICATION, user_id BIGINT, content TEXT, views INTEGER CONSTRAINT posts_view_check CHECK NOT FOR REPLICATION ([views]>(-1)), CONSTRAINT posts_ibfk_1 FOREIGN KEY (user_id) REFERENCES users (id) NOT FOR REPLICATION )"},
	{0, "select * from t where substr(a, (select a from b), b)"},
	{0, "select 'abcd', 20, 30.0, eid from a where 1=eid and name='3'"},
	{0, "select /* column alias as string without as */ a \"b\" from t"},
	{0, "alter table a rename to b"},
	{0, "alter table a rename as b"},
	{0, "alter table a add foreign key"},
	{0, "alter table a add primary key"},
	{0, "alter table a drop partition p2712"},
	{0, "alter table a drop foreign key"},
	{0, "alter table a drop primary key"},
	{0, "alter table a drop vindex hash"},
	{0, "select a, current_date from t"},
	{0, "select /* column alias as string */ a as \"b\" from t"},
	{0, "select /* straight_join */ 1 from t1 straight_join t2"},
	{0, "select /* true */ 1 from t where true"},
	{0, "select /* current_timestamp as func */ current_timestamp() from t"},
	{0, "select /* bool as select value */ a, true from t"},
	{0, "set global transaction isolation level repeatable read"},
	{0, "create table a (\n\t`a` int\n)"},
	{0, "select distinct k collate latin1_german2_ci from t1"},
	{3, "CREATE TABLE bigdata ( data bigint )"},
	{3, "DROP INDEX [ix_users_id] ON [dbo].[users]"},
	{1, "CREATE TABLE timestamps ( created_at timestamp )"},
	{1, "CREATE VIEW view_user_posts AS SELECT p.id from (posts p INNER JOIN users u ON ((p.user_id = u.id))) WHERE (p.is_deleted = FALSE)"},
	{0, "select * from t where case (select a from b) when a then b when b then c else d end"},
	{0, "select * from t where case a when b then c when d then c else (select a from b) end"},
	{0, "select /* ignore */ 1 from t1 as t2 ignore index (a), t3 use index (b) where b = 1"},
	{0, "select /* natural join */ 1 from t1 natural join t2"},
	{0, "select /* order by null */ 1 from t order by null"},
	{0, "select /* binary unary */ a- -b from t"},
	{0, "insert /* no cols & paren select */ into a select * from t"},
	{0, "delete /* order */ from a order by b desc"},
	{0, "alter table a rename index foo to bar"},
	{0, "alter table a rename key foo to bar"},
	{0, "create index b on A (c)"},
	{0, "update t set a = current_timestamp()"},
	{0, "update t set b = utc_timestamp + 5"},
	{3, "ALTER TABLE [dbo].[users] DROP COLUMN [name]"},
	{0, "ALTER TABLE `users` ADD COLUMN `updated_at` datetime(6) DEFAULT current_timestamp(6) ON UPDATE current_timestamp(6) AFTER `created_at`"},
	{0, "create table t (\n\tid int auto_increment,\n\tusername varchar,\n\temail varchar,\n\tfull_name varchar,\n\tgeom point not null,\n\tstatus_nonkeyword varchar,\n\tprimary key (id),\n\tspatial key geom (geom),\n\tunique key by_username (username),\n\tunique by_username2 (username),\n\tunique index by_username3 (username),\n\tindex by_status (status_nonkeyword),\n\tkey by_full_name (full_name)\n)"},
	{3, "CREATE TABLE users ( id bigint NOT NULL, name varchar(20), INDEX [ix_users_id] UNIQUE CLUSTERED ([id] asc) )"},
	{1, "CREATE TABLE b ( b_id INTEGER PRIMARY KEY, a_id INTEGER REFERENCES a, a_my_text TEXT NOT NULL REFERENCES a (my_text) )"},
	{0, "select /* is false */ 1 from t where a is false"},
	{0, "select /* != */ 1 from t where a != b"},
	{0, "update /* limit */ a set b = 3 limit c"},
	{0, "update /* bool in update where */ a set b = 5 where c"},
	{0, "alter table a add index idx (id)"},
	{0, "alter table a add vindex hash (id)"},
	{0, "select /* NE true */ 1 from t where a != true"},
	{0, "select /* LT true */ 1 from t where a < true"},
	{0, "select /* LT false */ 1 from t where a < false"},
	{0, "select /* GT true */ 1 from t where a > true"},
	{0, "select /* GT false */ 1 from t where a > false"},
	{0, "select /* LE true */ 1 from t where a <= true"},
	{0, "select /* LE false */ 1 from t where a <= false"},
	{0, "select /* GE true */ 1 from t where a >= true"},
	{0, "select /* GE false */ 1 from t where a >= false"},
	{0, "select IF(B, C) from b"},
	{0, "select convert('abc', date) from t"},
	{0, "CREATE TABLE friends (\n\t\t  created_at datetime NOT NULL\n\t\t)"},
	{0, "CREATE UNIQUE INDEX index_created_at ON users (created_at)"},
	{0, "ALTER TABLE `users` ADD key `index_name` (`name`)"},
	{1, "CREATE TABLE timestamps ( created_at timestamp default current_timestamp )"},
	{1, "ALTER TABLE \"public\".\"users\" ADD COLUMN \"age\" integer"},
	{0, "select /* not regexp */ 1 from t where a not regexp b"},
	{0, "select /* is not false */ 1 from t where a is not false"},
	{0, "select /* u- */ 1 from t where a = -b"},
	{0, "select /* u~ */ 1 from t where a = ~b"},
	{0, "alter table a add unique key foo (column1)"},
	{0, "alter table a drop fulltext index idx (id)"},
	{0, "select * from t1 where 'Müller' collate latin1_german2_ci = k"},
	{0, "update t partition (p0) set a = 1"},
	{0, "select utc_time(), utc_date() from dual"},
	{0, "select convert('abc', char unicode) from t"},
	{0, "select convert('abc', signed integer) from t"},
	{0, "select convert('abc', unsigned integer) from t"},
	{0, "select * from a where a+b is true"},
	{0, "ALTER TABLE `users` ADD COLUMN `id` bigint NOT NULL FIRST"},
	{0, "CREATE TABLE users (\n  `id` BIGINT,\n  `account_id` BIGINT\n)"},
	{0, "update t set a = left('1234', 3)"},
	{0, "ALTER TABLE `users` CHANGE COLUMN `id` `id` bigint NOT NULL AUTO_INCREMENT"},
	{1, "ALTER TABLE \"public\".\"users\" ALTER COLUMN \"name\" DROP NOT NULL"},
	{0, "select * from t where a = 1 or b = 1"},
	{0, "select * from t where not (select a from b)"},
	{0, "select * from t where v1 = 1.2 and v2 = 2"},
	{0, "select * from t where v1 = '%256s' and v2 = '%256s'"},
	{0, "select /* union parenthesized select 2 */ 1 from t union (select 1 from t)"},
	{0, "select /* union with limit on lhs */ 1 from t limit 1 union select 1 from t"},
	{0, "select /* not between */ 1 from t where a not between b and c"},
	{0, "select /* if as func */ 1 from t where a = if(b)"},
	{0, "insert /* default */ into a values (default, 2 * 3)"},
	{0, "update (select id from foo) subqalias set id = 4"},
	{0, "select k collate 'latin1_german2_ci' as k1 from t1 order by k1 asc"},
	{0, "select convert('abc', nchar(4)) from t"},
	{0, "select convert('abc', time(4)) from t"},
	{3, "ALTER TABLE [dbo].[users] ADD primary key CLUSTERED ([id])"},
	{3, "CREATE UNIQUE CLUSTERED INDEX [ix_users_id] ON [dbo].[users] ([id])"},
	{0, "CREATE TABLE users (\n  `id` bigint NOT NULL,\n  `name` text\n  )"},
	{1, "CREATE TABLE users ( id integer, name integer[] )"},
	{1, "CREATE TABLE voltages ( volt int GENERATED BY DEFAULT AS IDENTITY )"},
	{0, "select * from t where (select a from b) or b"},
	{0, "select * from t where 1+(select a from b)"},
	{0, "select /* OR in select columns */ (a or b) from t where c = 5"},
	{0, "update t set a = replace('1234', '2', '1')"},
	{0, "create table `a`(`id` int, primary key(`id`))"},
	{0, "ALTER TABLE `users` ADD COLUMN `name` varchar(40) UNIQUE AFTER `id`"},
	{0, "select * from a where a=1 and b=2 is true"},
	{1, "CREATE TABLE users ( \"col1\" character varying(40) NOT NULL, \"col2\" character varying(6) NOT NULL, \"created_at\" timestamp NOT NULL, PRIMARY KEY (\"col1\", \"col2\") )"},
	{1, "ALTER TABLE \"public\".\"color\" ALTER COLUMN \"color_id\" ADD GENERATED BY DEFAULT AS IDENTITY"},
	{0, "select * from t where a like b escape (select a from b)"},
	{0, "select * from t where (select a from b) between a and b"},
	{0, "select * from t where a between (select a from b) and b"},
	{0, "insert /* cols & paren select */ into a(a, b, c) select * from t"},
	{0, "CREATE TABLE users (\n\t\t  id int UNSIGNED NOT NULL,\n\t\t  name varchar(40)\n\t\t)"},
	{0, "select k from t1 join t2 order by a collate latin1_german2_ci asc, b collate latin1_german2_ci asc"},
	{0, "CREATE TABLE users (\n\t\t  id bigint NOT NULL,\n\t\t  name varchar(20) PRIMARY KEY\n\t\t)"},
	{0, "select a from (select 1 as a from tbl1 union select 2 from tbl2) as t"},
	{0, "select * from t1 join (select * from t2 union select * from t3) as t"},
	{0, "insert into t(a, b) values (left('foo', 1), 'b')"},
	{0, "delete a from a join b on a.id = b.id where b.name = 'test'"},
	{3, "CREATE TABLE users ( id integer PRIMARY KEY IDENTITY(1,1), name text, age integer )"},
	{3, "CREATE TABLE users ( id bigint NOT NULL PRIMARY KEY, name varchar(20) CONSTRAINT df_name DEFAULT NULL )"},
	{0, "select * from t where case a when b then (select a from b) when b then c else d end"},
	{3, "CREATE TABLE users ( id bigint NOT NULL, name varchar(20), INDEX [ix_users_id] UNIQUE CLUSTERED ([id]) WITH ( PAD_INDEX = ON, FILLFACTOR = 10, IGNORE_DUP_KEY = ON, STATISTICS_NORECOMPUTE = ON, STATISTICS_INCREMENTAL = OFF, ALLOW_ROW_LOCKS = ON, ALLOW_PAGE_LOCKS = ON ) )"},
	{3, "CREATE TABLE a ( a_id INTEGER PRIMARY KEY CONSTRAINT [a_a_id_check] CHECK ([a_id]>(0)), my_text TEXT NOT NULL )"},
	{0, "insert /* bool in on duplicate */ into a values (1, 2, 3) on duplicate key update b = values(b), c = d"},
	{3, "CREATE TRIGGER [insert_log] ON [dbo].[users] after insert AS insert into logs(log, dt) values ('insert', getdate())"},
	{3, "CREATE TABLE posts ( content text, user_id bigint, CONSTRAINT posts_ibfk_1 FOREIGN KEY (user_id) REFERENCES users (id) ON DELETE SET NULL ON UPDATE CASCADE )"},
	{0, "(select id, a from t order by id limit 1) union (select id, b as a from s order by id limit 1) order by a limit 1"},
	{0, "create table t (\n\tid int auto_increment,\n\tusername varchar,\n\tunique key by_username (username) key_block_size 8,\n\tunique key by_username2 (username) key_block_size=8,\n\tunique by_username3 (username) key_block_size = 4\n)"},
	{0, "select /* over-parenthesize */ ((1)) from t where ((a)) in (((1))) and ((a, b)) in ((((1, 1))), ((2, 2)))"},
	{3, "CREATE TABLE posts ( post_id BIGINT IDENTITY(1,1) NOT FOR REPLICATION, user_id BIGINT, content TEXT, views INTEGER CHECK NOT FOR REPLICATION ([views]>(-1)), CONSTRAINT posts_ibfk_1 FOREIGN KEY (user_id) REFERENCES users (id) NOT FOR REPLICATION )"},
}

// Statements is the number of statements, Statement the i-th and its mode.
func Statements() int { return len(corpus) }

func Statement(i int) (mode int, sql string) { return corpus[i].mode, corpus[i].sql }
